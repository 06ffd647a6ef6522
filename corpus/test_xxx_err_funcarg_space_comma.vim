function OK1(a)
endfunction
function OK2( a)
endfunction
function OK3(a )
endfunction
function OK4( a )
endfunction
function OK5(a,b)
endfunction
function OK6(a, b)
endfunction
function OK7( a, b)
endfunction
function OK8(a, b )
endfunction
function OK9( a, b )
endfunction
function NG(a ,b)
endfunction
