#pragma once
namespace pika { struct mutex { void lock() {} void unlock() {} bool try_lock() { return true; } };
struct spinlock : mutex {}; }
