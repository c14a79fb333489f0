// Contracts for the value queues of helics::InputInfo (property I01).
// hvc: std=model
// hvc: flags=-DFMT_HEADER_ONLY
// hvc: assume-SmallBuffer=a value is its identity, its size and its content (proved for the real class by B01)
// hvc: assume-shared_ptr=a shared pointer to a constant value is represented by the value it shares; freeing is not tracked
// hvc: assume-upper_bound=std::upper_bound is its library contract; that the range is in order is checked at every call
#include "inputs.hpp"

HARNESS(next_iteration)
{
    update<1>(1);
}
BOUNDED(next_iteration2)
{
    update<2>(1);
}
