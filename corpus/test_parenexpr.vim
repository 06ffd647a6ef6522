" test_parenexpr
echo (1)
echo ((1))
echo ((1+1) + 2)
echo ((1+1) + 2 * (3 + 4))
