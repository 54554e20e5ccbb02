#pragma once
namespace umpire::strategy { struct ThreadSafeAllocator {}; }
