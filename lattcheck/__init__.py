"""Static analysis of lattpy: an interprocedural abstract interpreter over the syntax
trees of /repo/lattpy and the property rules that read its results."""
