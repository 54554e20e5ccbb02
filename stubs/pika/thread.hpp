#pragma once
#include <pika/runtime.hpp>
