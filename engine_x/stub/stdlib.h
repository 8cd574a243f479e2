typedef __SIZE_TYPE__ size_t; void abort(void) __attribute__((noreturn));
