// no valgrind
