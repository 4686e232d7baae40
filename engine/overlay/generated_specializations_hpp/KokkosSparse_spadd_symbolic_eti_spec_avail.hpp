// empty on purpose: the header implementation of spadd_symbolic is compiled here, so that it is executed symbolically instead of called in the prebuilt library
