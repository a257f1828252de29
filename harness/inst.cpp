// explicit instantiation of all form groups for one type: -DTT=...
#include "forms_impl.hpp"
typedef TT TheT;
#ifndef ONLY
#define ONLY 15
#endif
#if ONLY & 1
template bool forms_unary<TheT, NewSink<TheT>>(int, const FormArgs<TheT>&, const NewSink<TheT>&);
#endif
#if ONLY & 2
template bool forms_arith<TheT, NewSink<TheT>>(int, const FormArgs<TheT>&, const NewSink<TheT>&);
#endif
#if ONLY & 4
template bool forms_func<TheT, NewSink<TheT>>(int, const FormArgs<TheT>&, const NewSink<TheT>&);
#endif
#if ONLY & 8
template bool forms_deep<TheT, NewSink<TheT>>(int, const FormArgs<TheT>&, const NewSink<TheT>&);
#endif
