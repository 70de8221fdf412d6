#if SEQ_DIGIT == 0
PLACE(0, "zero")
#elif SEQ_DIGIT == 1
PLACE(1, "one, with a rather longer name")
#elif SEQ_DIGIT == 2
PLACE(2, "")
#elif SEQ_DIGIT == 3
PLACE(3, "three")
#elif SEQ_DIGIT == 4
PLACE(4, "FILTfour")
#else
PLACE(5, "five")
#endif
