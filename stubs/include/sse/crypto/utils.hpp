#pragma once
#include <sse/crypto/core.hpp>
