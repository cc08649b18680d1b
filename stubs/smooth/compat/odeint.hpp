#pragma once
#include <smooth/mini.hpp>
#include <boost/numeric/odeint.hpp>
namespace smooth::detail {
struct OdeintOps
{
  template<class... Fs> struct ssum
  {
    std::tuple<Fs...> al;
    ssum(Fs... f) : al(f...) { assert(std::get<0>(al) == 1); }
    template<class Y, class X, class... As> void operator()(Y & y, const X & x, const As &... as) const
    {
      [&]<std::size_t... I>(std::index_sequence<I...>) { y = rplus(x, (... + (std::get<I + 1>(al) * as))); }(std::index_sequence_for<As...>{});
    }
    using result_type = void;
  };
  template<class A = double, class B = A> using scale_sum2 = ssum<A, B>;
  template<class A = double, class B = A, class C = B> using scale_sum3 = ssum<A, B, C>;
  template<class A = double, class B = A, class C = B, class D = C> using scale_sum4 = ssum<A, B, C, D>;
  template<class A = double, class B = A, class C = B, class D = C, class E = D> using scale_sum5 = ssum<A, B, C, D, E>;
};
}  // namespace smooth::detail
namespace boost::numeric::odeint {
template<class S, class Br> struct operations_dispatcher<::smooth::Nil<S, Br>> { using operations_type = ::smooth::detail::OdeintOps; };
}
