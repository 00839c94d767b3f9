// Common prologue of all harnesses: standard headers the library expects, and the harness interface.
#pragma once
#include <utility>
#include <ranges>
#include <memory>
#include <memory_resource>
#include <vector>
#include <variant>
#include <optional>
#include <tuple>
#include <span>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <coroutine>
#include <exception>
#include <functional>
#include <string>
#include <cassert>
#include "vs.h"
