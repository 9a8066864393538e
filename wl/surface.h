// Small jobs over the rest of the value types' interface, for C01: each makes its own objects from the generator it is given,
// calls a group of functions on them and feeds what they return to `Seen`. Included by compat.cpp.
#pragma once

template <typename T>
static void add_q(Seen& s, const muu::quaternion<T>& q)
{
	s.real(q.s);
	V3::add(s, q.v);
}
template <typename V>
static void add_v(Seen& s, const V& v)
{
	for (auto x : v)
		s.real(x);
}
template <typename T>
static void add_seg(Seen& s, const muu::line_segment<T>& g)
{
	for (auto& p : g)
		V3::add(s, p);
}
template <typename T>
static void add_box(Seen& s, const muu::bounding_box<T>& b)
{
	V3::add(s, b.center);
	V3::add(s, b.extents);
}
template <typename T>
static void add_plane(Seen& s, const muu::plane<T>& p)
{
	V3::add(s, p.normal);
	s.real(p.d);
}
template <typename M>
static void add_m(Seen& s, const M& m)
{
	for (size_t i = 0; i < M::rows; i++)
		for (size_t j = 0; j < M::columns; j++)
			s.real(m(i, j));
}
template <typename M>
static M some_matrix(Rng& r)
{
	M m;
	for (size_t i = 0; i < M::rows; i++)
		for (size_t j = 0; j < M::columns; j++)
			m(i, j) = real<typename M::scalar_type>(r) + typename M::scalar_type(i == j ? 20 : 0);
	return m;
}
template <typename T>
static muu::vector<T, 3> unit3(Rng& r)
{
	return muu::vector<T, 3>::normalize(vec3<T>(r) + muu::vector<T, 3>{ 9, 1, -12 });
}
template <typename T>
static muu::quaternion<T> some_q(Rng& r)
{
	return muu::quaternion<T>::from_axis_angle(unit3<T>(r), real<T>(r) / T(4));
}
template <typename V>
static V some_v(Rng& r)
{
	V v{};
	for (auto& x : v)
		x = static_cast<typename V::scalar_type>(real<double>(r) * 3);
	return v;
}

// ------------------------------------------------------------------ vectors
template <typename V>
static void vectors(Seen& s, Rng& r)
{
	using T = typename V::scalar_type;
	V a = some_v<V>(r), b = some_v<V>(r), c = some_v<V>(r);
	V one{};
	for (auto& x : one)
		x = T(1);
	s.real(V::dot(a, b));
	s.real(V::length_squared(a));
	s.real(V::length(a));
	s.real(V::distance(a, b));
	s.real(V::distance_squared(a, b));
	add_v(s, V::min(a, b));
	add_v(s, V::max(a, b));
	add_v(s, V::min({ a, b, c }));
	add_v(s, V::max({ a, b, c }));
	add_v(s, V::clamp(c, V::min(a, b), V::max(a, b)));
	add_v(s, V::abs(a));
	add_v(s, a + b);
	add_v(s, a - b);
	add_v(s, a * b);
	add_v(s, -a);
	add_v(s, a * T(3));
	add_v(s, a / T(2));
	s.real(a.sum());
	s.real(a.product());
	s.flag(a == b);
	s.flag(V::zero(a - a));
	s.flag(V::infinity_or_nan(a));
	V d = a;
	d += b;
	d *= T(2);
	d -= c;
	add_v(s, d);
	muu::accumulator<V> acc;
	acc.add(a);
	acc.add(b);
	acc.add(c);
	add_v(s, acc.min());
	add_v(s, acc.max());
	add_v(s, acc.sum());
	if constexpr (std::is_floating_point_v<T>)
	{
		T len{};
		a += one * T(50);
		add_v(s, V::normalize(a, len));
		s.real(len);
		add_v(s, V::normalize_lensq(a, a.length_squared()));
		s.flag(V::normalized(V::normalize(a)));
		add_v(s, V::lerp(a, b, T(0.25)));
		add_v(s, V::ceil(b));
		add_v(s, V::floor(b));
		if constexpr (V::dimensions <= 3)
		{
			add_v(s, V::direction(a, b));
			s.real(V::angle(a, one));
		}
		s.flag(V::approx_equal(a, a + one * T(0.0000001)));
		s.flag(V::approx_zero(a));
		V n = a;
		n.normalize().lerp(b, T(0.5)).clamp(-one, one);
		add_v(s, n);
	}
	if constexpr (V::dimensions == 3)
	{
		V3::add(s, V::cross(a, b));
		V3::add(s, V::orthogonal(a));
		s.real(a.xy().x);
		s.real(a.yx().y);
		s.real(a.xz().y);
		s.real(a.xyz1().w);
	}
	if constexpr (V::dimensions > 4)
		s.real(a[V::dimensions - 1]);
	std::ostringstream os;
	os << a;
	printed(s, os);
}

// ------------------------------------------------------------------ matrices
template <typename T>
static void matrices(Seen& s, Rng& r)
{
	using M2 = muu::matrix<T, 2, 2>;
	using M3 = muu::matrix<T, 3, 3>;
	using M4 = muu::matrix<T, 4, 4>;
	using M34 = muu::matrix<T, 3, 4>;
	const auto m2 = some_matrix<M2>(r);
	const auto m3 = some_matrix<M3>(r);
	const auto m4 = some_matrix<M4>(r);
	const auto q  = some_q<T>(r);
	const auto v  = vec3<T>(r);
	switch (r.below(6))
	{
		case 0:
			add_m(s, M2::invert(m2));
			s.real(M2::determinant(m2));
			add_m(s, M3::invert(m3));
			add_m(s, M4::invert(m4));
			add_m(s, M4::transpose(m4));
			add_m(s, muu::matrix<T, 5, 5>::transpose(some_matrix<muu::matrix<T, 5, 5>>(r)));
			break;
		case 1:
			add_m(s, m4 * M4::from_3d_scale(T(2), T(3), T(4)));
			add_m(s, m4 + m4 * T(2));
			add_m(s, m4 - M4::from_translation(v));
			add_m(s, M34::from_translation(v) * m4);
			add_m(s, -m3 / T(2));
			add_v(s, m3 * v);
			add_v(s, m4 * muu::vector<T, 4>{ v, T(1) });
			add_v(s, muu::vector<T, 4>{ v, T(1) } * m4);
			break;
		case 2:
			add_m(s, M3::from_quaternion(q));
			add_m(s, M3::from_axis_angle(unit3<T>(r), T(0.75)));
			add_m(s, M3::from_euler(T(0.1), T(0.5), real<T>(r) / T(4)));
			add_m(s, M4::from_rotation(M3::from_quaternion(q)));
			add_m(s, M3::from_3d_direction(unit3<T>(r)));
			add_m(s, M4::from_axes({ T(1), T(0), T(0) }, { T(0), T(1), T(0) }, { T(0), T(0), T(1) }));
			add_m(s, M2::from_2d_scale(real<T>(r), T(3)));
			break;
		case 3:
		{
			const auto x = M4::from_translation(v) * M4::from_rotation(M3::from_quaternion(q)) * M4::from_3d_scale(T(1), T(2), T(3));
			V3::add(s, M4::transform_position(x, vec3<T>(r)));
			V3::add(s, M4::transform_direction(x, unit3<T>(r)));
			V3::add(s, M4::transform_without_translating(x, vec3<T>(r)));
			V3::add(s, M4::extract_3d_scale(x));
			s.flag(M4::orthonormalized(x));
			s.flag(x.has_3d_shear());
			add_m(s, M4::orthonormalize(x));
			add_m(s, M3::orthonormalize(m3));
			add_q(s, muu::quaternion<T>::from_rotation(M3::from_quaternion(q)));
			break;
		}
		case 4:
			add_m(s, M4::perspective_projection(T(1.1), T(1.5), T(0.1), T(100) + real<T>(r)));
			s.flag(m4 == M4::transpose(m4));
			s.flag(M4::approx_equal(m4, m4 * T(1.0000001)));
			s.flag(M4::zero(m4 - m4));
			s.flag(M4::infinity_or_nan(m4));
			s.real(m4.template get<2, 3>());
			V3::add(s, m4.translation_column().xyz());
			break;
		default:
		{
			std::ostringstream os;
			os << m3 << m2;
			printed(s, os);
			break;
		}
	}
}

// ------------------------------------------------------------------ rotations
template <typename T>
static void rotations(Seen& s, Rng& r)
{
	using Q = muu::quaternion<T>;
	const auto a = some_q<T>(r), b = some_q<T>(r);
	const auto v = vec3<T>(r);
	add_q(s, a * b);
	V3::add(s, a * v);
	add_q(s, Q::slerp(a, b, T(0.3)));
	add_q(s, Q::slerp(a, a, T(0.3)));
	add_q(s, Q::conjugate(a));
	add_q(s, Q::normalize(Q{ T(2), v }));
	s.flag(Q::normalized(a));
	s.real(Q::dot(a, b));
	s.flag(Q::approx_equal(a, b));
	s.flag(Q::infinity_or_nan(a));
	add_q(s, Q::from_rotation(unit3<T>(r), unit3<T>(r)));
	const auto aa = a.to_axis_angle();
	V3::add(s, aa.axis);
	s.real(aa.angle);
	const auto e = b.to_euler();
	s.real(e.yaw);
	s.real(e.pitch);
	s.real(e.roll);
	add_q(s, Q::from_euler(e));
	add_q(s, Q{ aa });
	auto ab = a;
	ab.slerp(b, T(0.5)).normalize();
	add_q(s, ab);
	std::ostringstream os;
	os << aa << e << a;
	printed(s, os);
}

// ------------------------------------------------------------------ shapes
template <typename T>
static void shapes(Seen& s, Rng& r)
{
	using V	   = muu::vector<T, 3>;
	using P	   = muu::plane<T>;
	using Seg  = muu::line_segment<T>;
	using Tri  = muu::triangle<T>;
	using Box  = muu::bounding_box<T>;
	using Ball = muu::bounding_sphere<T>;
	using Obb  = muu::oriented_bounding_box<T>;
	using Ray  = muu::ray<T>;
	const V p = vec3<T>(r), p2 = vec3<T>(r);
	const P floor{ V{ 0, 1, 0 }, real<T>(r) };
	const Seg seg{ vec3<T>(r), vec3<T>(r) + V{ 1, 0, 0 } };
	const Tri tri{ vec3<T>(r), vec3<T>(r) + V{ 8, 0, 0 }, vec3<T>(r) + V{ 0, 0, 9 } };
	const Box box{ vec3<T>(r), V{ 3, 4, 5 } };
	const Ball ball{ vec3<T>(r), T(3.5) };
	const Obb obb{ vec3<T>(r), V{ 2, 2, 5 }, muu::matrix<T, 3, 3>::from_quaternion(some_q<T>(r)) };
	const auto xf = muu::matrix<T, 4, 4>::from_translation(p) * muu::matrix<T, 4, 4>::from_quaternion(some_q<T>(r));
	switch (r.below(8))
	{
		case 0: // planes
			add_plane(s, P{ p, V::normalize(p2 + V{ 0, 20, 0 }) });
			add_plane(s, P::from_triangle(tri));
			add_plane(s, P::normalize(P{ p2 + V{ 30, 0, 0 }, T(2) }));
			add_plane(s, P::transform(floor, xf));
			s.real(P::distance(floor, p));
			V3::add(s, P::project(floor, p));
			V3::add(s, P::origin(floor));
			s.flag(P::same_side(floor, p, p2));
			s.flag(P::contains(floor, P::project(floor, p)));
			s.flag(P::intersects(floor, seg));
			s.flag(P::intersects(floor, box));
			add_seg(s, P::project(floor, seg));
			break;
		case 1: // segments
		{
			T len{};
			V3::add(s, Seg::direction(seg, len));
			s.real(len);
			V3::add(s, Seg::midpoint(seg));
			s.real(Seg::length_squared(seg));
			s.flag(Seg::degenerate(seg));
			V3::add(s, Seg::closest_point(seg, p));
			s.flag(Seg::colinear(seg, p));
			s.flag(Seg::contains(seg, Seg::midpoint(seg)));
			s.flag(Seg::coplanar(seg, Seg{ p, p2 }));
			s.flag(Seg::intersects(seg, floor));
			s.flag(Seg::intersects(seg, box));
			add_seg(s, Seg::extend(seg, T(1.5)));
			add_seg(s, Seg::reverse(seg));
			add_seg(s, Seg{ seg.points[1], p2 });
			break;
		}
		case 2: // triangles
		{
			V3::add(s, tri.normal());
			V3::add(s, tri.centroid());
			s.real(tri.perimeter());
			s.real(tri.area());
			add_plane(s, tri.plane());
			s.flag(tri.degenerate());
			s.flag(tri.coplanar(p));
			s.flag(tri.contains(tri.centroid()));
			s.flag(tri.contains(seg));
			s.flag(tri.intersects(box));
			s.flag(tri.intersects(obb));
			if constexpr (std::is_same_v<T, float>)
				s.flag(tri.intersects(ball));
			s.flag(tri.intersects(Tri{ p, p2, V{ 5, -5, 5 } }));
			V3::add(s, tri.barycentric(p));
			const auto gen = tri.barycentric_generator();
			V3::add(s, gen(p2));
			s.flag(box.collision_tester()(tri.collision_tester()));
			break;
		}
		case 3: // boxes
		{
			add_box(s, Box::from_min_max(V::min(p, p2), V::max(p, p2)));
			add_box(s, Box::from_points(p, p2, vec3<T>(r), vec3<T>(r)));
			add_box(s, Box::from_obb(obb));
			add_box(s, Box::from_sphere(ball));
			add_box(s, Box::translate(box, p));
			add_box(s, Box::scale(box, V{ 1, 2, 3 }));
			add_box(s, Box::transform(box, xf));
			Box grow = box;
			grow.append(p * T(4)).append(p2, -p2).append(Box{ p, V{ 9, 1, 1 } }).append(seg).append(tri);
			add_box(s, grow);
			V3::add(s, grow.closest_point(p * T(9)));
			V3::add(s, grow.min_corner());
			V3::add(s, grow.max_corner());
			V3::add(s, Box::corner(grow, muu::box_corner{}));
			s.real(grow.volume());
			s.real(grow.diagonal());
			s.real(grow.longest_side());
			s.real(grow.mass(T(2)));
			s.flag(grow.contains(seg));
			s.flag(grow.contains(tri));
			s.flag(grow.degenerate());
			s.flag(grow.intersects(obb));
			break;
		}
		case 4: // spheres
			s.real(ball.volume());
			s.real(ball.diameter());
			s.real(ball.mass(T(3)));
			s.flag(ball.contains(p));
			s.flag(ball.contains(seg));
			s.flag(ball.contains(tri));
			if constexpr (std::is_same_v<T, float>) // the one for double does not compile
				s.flag(ball.intersects(tri));
			s.flag(ball.intersects(box));
			s.flag(ball.intersects(Ball{ p, T(1) }));
			V3::add(s, Ball::translate(ball, p).center);
			break;
		case 5: // oriented boxes
		{
			s.real(obb.volume());
			s.real(obb.width());
			V3::add(s, Obb::translate(obb, p).center);
			V3::add(s, Obb::scale(obb, V{ 1, 2, 3 }).extents);
			const auto t = Obb::transform(obb, xf);
			V3::add(s, t.center);
			V3::add(s, t.extents);
			add_m(s, t.axes);
			s.flag(t.contains(p));
			s.flag(t.intersects(box));
			s.flag(t.intersects(obb));
			s.flag(t.intersects(tri));
			if constexpr (std::is_same_v<T, float>)
				s.flag(t.intersects(ball));
			V3::add(s, t.min_corner());
			break;
		}
		case 6: // rays
		{
			const Ray ray{ p - V{ 0, 20, 0 }, V::normalize(V{ 0, 20, 0 } + p2) };
			auto see = [&](auto hit) {
				s.flag(!!hit);
				if (hit)
				{
					s.real(*hit);
					V3::add(s, ray.at(*hit));
					const auto b = Ray::bounce(ray, *hit, V{ 1, 0, 0 });
					V3::add(s, b.origin);
					V3::add(s, b.direction);
				}
			};
			see(ray.hits(floor));
			see(ray.hits(box));
			see(ray.hits(ball));
			see(ray.hits(tri));
			s.flag(ray == Ray{ p, ray.direction });
			break;
		}
		default:
		{
			std::ostringstream os;
			os << floor << seg << tri << box << ball;
			printed(s, os);
			break;
		}
	}
}

// ------------------------------------------------------------------ narrow types
template <typename U, size_t N>
static void packed(Seen& s, Rng& r)
{
	using P = muu::packed_unit_vector<U, N>;
	muu::vector<float, N> v;
	for (size_t i = 0; i < N; i++)
		v[i] = real<float>(r) + (i == 0 ? 20.0f : 0.0f);
	const P p{ muu::vector<float, N>::normalize(v) };
	add_v(s, p.template unpack<float>());
	add_v(s, p.template unpack<double>());
	const P p2{ muu::vector<float, N>::normalize(-v) };
	add_v(s, p2.template unpack<float>());
	s.bytes(&p2, sizeof p2);
}
static void narrow(Seen& s, Rng& r)
{
	switch (r.below(3))
	{
		case 0:
		{
			const muu::half a{ real<float>(r) }, b{ real<float>(r) };
			s.real(static_cast<float>(a + b));
			s.real(static_cast<float>(a - b));
			s.real(static_cast<float>(a * b));
			s.real(static_cast<float>(-a));
			s.flag(a < b);
			s.flag(a == b);
			s.flag(muu::infinity_or_nan(a));
			s.real(static_cast<float>(muu::abs(a)));
			s.real(static_cast<float>(muu::lerp(a, b, muu::half{ 0.5f })));
			s.real(static_cast<double>(a));
			s.num(static_cast<uint64_t>(static_cast<int64_t>(static_cast<int>(static_cast<float>(b)))));
			std::ostringstream os;
			os << a << ' ' << b;
			printed(s, os);
			break;
		}
		case 1:
			packed<uint32_t, 3>(s, r);
			packed<uint64_t, 3>(s, r);
			packed<uint16_t, 3>(s, r);
			packed<uint32_t, 2>(s, r);
			break;
		default:
		{
			const char text[] = { char('a' + r.below(26)), char('a' + r.below(26)), char('a' + r.below(26)), 0 };
			muu::fixed_string<char, 3> f{ text };
			const auto g = f + muu::fixed_string<char, 2>{ "xy" };
			s.text(static_cast<std::string_view>(g));
			std::ostringstream os;
			os << f;
			printed(s, os);
			s.flag(f == muu::fixed_string<char, 3>{ "abc" });
			s.real(muu::approx_equal(real<double>(r), 0.5) ? 1.0 : 0.0);
			s.real(muu::lerp(real<double>(r), 2.0, 0.25));
			s.real(muu::normalize_angle(real<double>(r)));
			s.real(muu::clamp(real<double>(r), -1.0, 1.0));
			break;
		}
	}
}

static void surface(Seen& s, Rng& r)
{
	switch (r.below(16))
	{
		case 0: vectors<muu::vector<float, 2>>(s, r); break;
		case 1: vectors<muu::vector<float, 3>>(s, r); break;
		case 2: vectors<muu::vector<double, 3>>(s, r); break;
		case 3: vectors<muu::vector<float, 4>>(s, r); break;
		case 4: vectors<muu::vector<int, 3>>(s, r); break;
		case 5: vectors<muu::vector<double, 7>>(s, r); break;
		case 6: matrices<float>(s, r); break;
		case 7: matrices<double>(s, r); break;
		case 8: rotations<float>(s, r); break;
		case 9: rotations<double>(s, r); break;
		case 10:
		case 11: shapes<float>(s, r); break;
		case 12:
		case 13: shapes<double>(s, r); break;
		default: narrow(s, r); break;
	}
}
