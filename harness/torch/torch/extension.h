#include "torch.h"
