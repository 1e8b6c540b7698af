// Linked with --wrap: calls of make_default_aio_scheduler come here.
#include "aio_choice.h"
#include <sse/schemes/abstractio/scheduler.hpp>

bool g_thread_pool_aio = false;

#define DEFAULT _ZN3sse10abstractio26make_default_aio_schedulerEm
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" sse::abstractio::Scheduler* CAT(__real_, DEFAULT)(size_t) __attribute__((weak));
extern "C" sse::abstractio::Scheduler* CAT(__wrap_, DEFAULT)(size_t page_size)
{
    if (g_thread_pool_aio) return sse::abstractio::make_thread_pool_aio_scheduler();
    return CAT(__real_, DEFAULT)(page_size);
}
