" test_dict
echo {}
echo {'1': 1}
echo {1: 1}
echo {x : 1}
echo {"\<cr>": 1}
echo {"vim": 1}
echo {1+1:2}
" XXX: echo {x:1}
echo {'x' : {},}
echo [{},]
