"""a model that notes what it is given and answers with fixed arrays (used by P24)"""
import torch
SEEN = []


class Note(torch.nn.Module):
    def __init__(self, out):
        super().__init__()
        self.out = out

    def forward(self, *a):
        SEEN.append(a)
        return self.out
