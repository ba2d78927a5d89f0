#include <ustl.h>
template class ustl::index_iterate<int*,unsigned*>; template class ustl::index_iterate<const int*,const unsigned*>;
