let foo#bar#baz = 123
echo foo#bar#baz
