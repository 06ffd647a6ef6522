if 1 | set nocp | endif
