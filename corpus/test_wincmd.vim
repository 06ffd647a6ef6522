if 1 | wincmd p | endif
