#pragma once
#include <pika/mini.hpp>
