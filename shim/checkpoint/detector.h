// Stand-in for magistrate's detection idiom (std::experimental::is_detected).
#ifndef VERIF_SHIM_CHECKPOINT_DETECTOR_H
#define VERIF_SHIM_CHECKPOINT_DETECTOR_H
#include <type_traits>
namespace detection {
template <typename...> using void_t_ = void;
struct nonesuch {
  nonesuch() = delete; ~nonesuch() = delete;
  nonesuch(nonesuch const&) = delete; void operator=(nonesuch const&) = delete;
};
namespace det {
template <class D, class AlwaysVoid, template <class...> class Op, class... A>
struct detector { using value_t = std::false_type; using type = D; };
template <class D, template <class...> class Op, class... A>
struct detector<D, void_t_<Op<A...>>, Op, A...> {
  using value_t = std::true_type; using type = Op<A...>;
};
}
template <template <class...> class Op, class... A>
using is_detected = typename det::detector<nonesuch, void, Op, A...>::value_t;
template <template <class...> class Op, class... A>
using detected_t = typename det::detector<nonesuch, void, Op, A...>::type;
template <class D, template <class...> class Op, class... A>
using detected_or = det::detector<D, void, Op, A...>;
template <class E, template <class...> class Op, class... A>
using is_detected_exact = std::is_same<E, detected_t<Op, A...>>;
template <class To, template <class...> class Op, class... A>
using is_detected_convertible = std::is_convertible<detected_t<Op, A...>, To>;
}
#endif
