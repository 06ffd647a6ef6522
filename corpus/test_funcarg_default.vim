function X(foo=1+2)
  return a:foo
endfunction
