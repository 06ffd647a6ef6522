vimgrep /abc"def/ foo.txt
