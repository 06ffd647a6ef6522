function Foo(a, b, b, c)
endfunction
