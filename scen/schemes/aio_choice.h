// Which asynchronous I/O scheduler the library takes when it chooses by itself:
// the machine's (kernel AIO), or the one of builds without libaio.
#pragma once
extern bool g_thread_pool_aio;
