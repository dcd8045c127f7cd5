// The parallel loop and the lock-free task stack, with one body of a loop.
#include <cstddef>
#include <cstdlib>
#include <alloca.h>
#include <atomic>
#include <par/parfor.hpp>
#include <par/parfor.cpp>

extern "C" void body_of_loop(const void* state, size_t start, size_t end);

struct Body
{
    int state;
    void operator()(size_t start, size_t end) const { body_of_loop(this, start, end); }
};

extern "C" void use_parallel_for(size_t size, size_t per_batch, const Body* body)
{
    fu::parallel_for(size, per_batch, *body);
}

// the stack, used by name
template struct lockfree::stack<3>;
