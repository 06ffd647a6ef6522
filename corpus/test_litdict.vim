echo #{}
echo #{foo-bar: 42}
echo #{foo-: 42}
echo #{-bar: 42}
echo #{1-1:0}
echo #{one: 1, two2: 2, 3three: 3, 44: 4}
echo #{x : {},}
echo [#{},]
