let foo:bar = 1
