#include <torch/torch.h>
