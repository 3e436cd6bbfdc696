#define HEAP_PROP 2
#include "heap_ops.hpp"

char const* const property_rule
    = "One case is a history of allocate, callocate, deallocate (random, forwards, backwards), rewrite, low-water reset "
      "and failure-callback changes on one static_heap<N>, N drawn from 23 sizes (64 B to 20 MiB), request sizes around "
      "exact fits of the present free regions, random and absurd, ending with everything freed and one request for the "
      "whole heap. Non-trivial: memory was handed out after a free, and some free merged neighbouring regions.";

void
property(pbt::ctx& c)
{
    heap_case(c);
}
