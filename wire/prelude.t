struct Foo {
    a: U64 = 0
    b: S64 = 1
    c: String = 2
}
