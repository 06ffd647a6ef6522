function F()
  return "foo"
endfunction
