#ifndef VERIF_MC_POST_H_
#define VERIF_MC_POST_H_
#include "boost/asio/thread_pool.hpp"
namespace boost::asio {
template <typename F> void post(thread_pool& p, F&& f) { p.verif_post(std::forward<F>(f)); }
}
#endif
