const &encoding = "foo"
