// empty on purpose: the header implementation of spadd_numeric is compiled here, so that it is executed symbolically instead of called in the prebuilt library
