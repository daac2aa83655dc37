#include "kvthread.hh"
volatile mrcu_epoch_type globalepoch = 1;
volatile mrcu_epoch_type active_epoch = 1;
volatile uint64_t globalepoch_unused;
kvtimestamp_t initial_timestamp;
volatile bool recovering = false;
