echo {a->'OK1'}
echo { a->'OK2'}
echo {a ->'OK3'}
echo { a ->'OK4'}
echo {a,b->'OK5'}
echo {a, b->'OK6'}
echo { a, b->'OK7'}
echo {a, b ->'OK8'}
echo { a, b ->'OK9'}
echo {a ,b->'NG'}
