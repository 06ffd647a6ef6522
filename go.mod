module verif

go 1.27

require github.com/vim-jp/go-vimlparser v0.0.0

replace github.com/vim-jp/go-vimlparser => /repo
