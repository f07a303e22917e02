// Included by the generated type-level probes.
#pragma once
#include <wave/geometry/geometry.hpp>
#include <wave/geometry/dynamic.hpp>
#include <wave/geometry/estimation.hpp>

namespace w = wave;
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
using M4 = Eigen::Matrix<double, 4, 4>;
using V6 = Eigen::Matrix<double, 6, 1>;

// frames of an evaluated result, as visible in its type
template <class T, class... F> struct frames_are : std::false_type {};
template <class L, class... F> struct frames_are<w::Framed<L, F...>, F...> : std::true_type {};
template <class T> struct is_framed : std::false_type {};
template <class L, class... F> struct is_framed<w::Framed<L, F...>> : std::true_type {};
template <class T> using plain_t = std::decay_t<T>;
#define OUT(e) plain_t<decltype(w::eval(e))>

// geometric kind of an evaluated result
template <class T> struct bare { using type = T; };
template <class L, class... F> struct bare<w::Framed<L, F...>> { using type = L; };
template <class T, template <class...> class K> struct kind_is : std::false_type {};
template <template <class...> class K, class... X> struct kind_is<K<X...>, K> : std::true_type {};
#define KIND(e, K) static_assert(kind_is<bare<OUT(e)>::type, w::K>::value, "kind of result")
template <class T> struct is_rot : std::integral_constant<bool, std::is_base_of<w::RotationBase<T>, T>::value> {};
template <class T> struct is_se3 : std::integral_constant<bool, std::is_base_of<w::RigidTransformBase<T>, T>::value> {};
template <class T> struct is_trans : std::integral_constant<bool, std::is_base_of<w::TranslationBase<T>, T>::value> {};
template <class T> struct is_point : std::integral_constant<bool, std::is_base_of<w::PointBase<T>, T>::value> {};
template <class T> struct is_rrot : std::integral_constant<bool, std::is_base_of<w::RelativeRotationBase<T>, T>::value> {};
template <class T> struct is_twist : std::integral_constant<bool, std::is_base_of<w::TwistBase<T>, T>::value> {};
template <class T> struct is_scalar : std::integral_constant<bool, std::is_base_of<w::ScalarBase<T>, T>::value> {};
template <class T> struct undefined_template;
