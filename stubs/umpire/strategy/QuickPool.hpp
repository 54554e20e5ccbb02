#pragma once
namespace umpire::strategy { struct QuickPool {}; }
