package @NAME@
