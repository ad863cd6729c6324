/* The part of MySQL's mysql.h a user-defined function sees (stand-in for the server's header). */
#ifndef SIM_STUB_MYSQL_H
#define SIM_STUB_MYSQL_H
typedef char my_bool;
enum Item_result { INVALID_RESULT = -1, STRING_RESULT = 0, REAL_RESULT, INT_RESULT, ROW_RESULT, DECIMAL_RESULT };
typedef struct UDF_ARGS {
    unsigned int arg_count;
    enum Item_result *arg_type;
    char **args;
    unsigned long *lengths;
    char *maybe_null;
    char **attributes;
    unsigned long *attribute_lengths;
    void *extension;
} UDF_ARGS;
typedef struct UDF_INIT {
    bool maybe_null;
    unsigned int decimals;
    unsigned long max_length;
    char *ptr;
    bool const_item;
    void *extension;
} UDF_INIT;
#endif
