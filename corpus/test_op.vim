echo a is b
echo a is? b
echo a is# b
echo a isnot b
echo a isnot? b
echo a isnot# b
echo a || b
echo a && b
echo a == b
echo a ==? b
echo a ==# b
echo a != b
echo a !=? b
echo a !=# b
echo a >= b
echo a >=? b
echo a >=# b
echo a <= b
echo a <=? b
echo a <=# b
echo a =~ b
echo a =~? b
echo a =~# b
echo a !~ b
echo a !~? b
echo a !~# b
echo a > b
echo a >? b
echo a ># b
echo a < b
echo a <? b
echo a <# b
echo a + b
echo a - b
echo a . b
echo a * b
echo a / b
echo a % b
echo !a
echo a ? b : c
