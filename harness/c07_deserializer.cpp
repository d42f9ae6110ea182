// C07: bounds-checked deserializer: any sequence of reads behaves as a cursor over the buffer; a read which doesn't fit
// throws std::invalid_argument and consumes nothing.
#include <utki/deserializer.hpp>

#include <cstring>
#include <memory>
#include <stdexcept>

#include "mc.hpp"

using namespace mc;

namespace {
struct fixture {
	std::unique_ptr<uint8_t[]> p;
	size_t n;
	size_t pos = 0;
	utki::deserializer d;

	fixture(size_t n, uint32_t seed) :
		p(new uint8_t[n]),
		n(n),
		d(utki::span<const uint8_t>(p.get(), n))
	{
		for (size_t i = 0; i != n; ++i) {
			p[i] = seed == 0 ? uint8_t(0x81 + i * 37) : uint8_t(lcg(seed));
		}
	}

	uint64_t ref(unsigned bytes, bool be) const
	{
		uint64_t v = 0;
		for (unsigned k = 0; k != bytes; ++k) {
			unsigned idx = be ? k : bytes - 1 - k;
			v = (v << 8) | p[pos + idx];
		}
		return v;
	}

	template <class F, class C>
	void op(const char* name, size_t need, F f, C compare)
	{
		bool fits = need <= n - pos;
		bool thrown = false;
		note("%s(%zu)@%zu/%zu", name, need, pos, n);
		where(name, need, pos, n);
		try {
			auto r = f();
			MC_CHECK(fits, "%s of %zu bytes with %zu left succeeded", name, need, n - pos);
			compare(r);
		} catch (std::invalid_argument&) {
			thrown = true;
		}
		MC_CHECK(thrown == !fits, "%s of %zu bytes with %zu left: thrown=%d", name, need, n - pos, thrown);
		if (fits) {
			pos += need;
		}
		MC_CHECK(d.size() == n - pos, "%s(%zu): size is %zu, expected %zu", name, need, d.size(), n - pos);
		MC_CHECK(d.empty() == (n == pos), "%s(%zu)", name, need);
		steps();
		state(hasher().add(n).add(pos).add(hash_str(name)).add(need).h);
	}

	template <class T, class F>
	void num(const char* name, bool be, F f)
	{
		this->op(name, sizeof(T), f, [&](T r) {
			MC_CHECK(uint64_t(r) == this->ref(sizeof(T), be), "%s at %zu returned %llx", name, pos, (unsigned long long)r);
		});
	}

	template <class F>
	void flt(const char* name, bool be, F f)
	{
		this->op(name, 4, f, [&](float r) {
			uint32_t bits;
			memcpy(&bits, &r, 4);
			uint32_t e = uint32_t(this->ref(4, be));
			bool nan = (e & 0x7f800000) == 0x7f800000 && (e & 0x7fffff);
			MC_CHECK(bits == e || (nan && r != r), "%s at %zu returned %x expected %x", name, pos, bits, e);
		});
	}

	void str(size_t len)
	{
		this->op("read_string", len, [&] { return d.read_string(len); }, [&](std::string_view r) {
			MC_CHECK(r.size() == len, "size");
			MC_CHECK(r.data() == reinterpret_cast<const char*>(p.get() + pos) || len == 0, "read_string returns view of the buffer");
		});
	}

	void spn(size_t len)
	{
		this->op("read_span", len, [&] { return d.read_span(len); }, [&](utki::span<const uint8_t> r) {
			MC_CHECK(r.size() == len, "size");
			MC_CHECK(r.data() == p.get() + pos || len == 0, "read_span returns view of the buffer");
		});
	}

	void skip(size_t len)
	{
		this->op(
			"skip",
			len,
			[&] {
				d.skip(len);
				return 0;
			},
			[](int) {}
		);
	}

	static constexpr unsigned num_fixed = 11;

	void fixed(unsigned k)
	{
		switch (k) {
			case 0:
				return this->num<uint8_t>("read_uint8", false, [&] { return d.read_uint8(); });
			case 1:
				return this->num<uint16_t>("read_uint16_le", false, [&] { return d.read_uint16_le(); });
			case 2:
				return this->num<uint32_t>("read_uint32_le", false, [&] { return d.read_uint32_le(); });
			case 3:
				return this->num<uint64_t>("read_uint64_le", false, [&] { return d.read_uint64_le(); });
			case 4:
				return this->num<uint16_t>("read_uint16_be", true, [&] { return d.read_uint16_be(); });
			case 5:
				return this->num<uint32_t>("read_uint32_be", true, [&] { return d.read_uint32_be(); });
			case 6:
				return this->num<uint64_t>("read_uint64_be", true, [&] { return d.read_uint64_be(); });
			case 7:
				return this->flt("read_float_le", false, [&] { return d.read_float_le(); });
			case 8:
				return this->flt("read_float_be", true, [&] { return d.read_float_be(); });
			case 9: {
				// copy of the deserializer is independent of the original
				auto copy = d;
				size_t was = copy.size();
				if (d.size() > 0) {
					copy.skip(1);
					MC_CHECK(d.size() == was && copy.size() == was - 1, "copy is not independent");
				}
				steps();
				return;
			}
			case 10: {
				// continue with the copy
				auto copy = d;
				d = copy;
				return;
			}
			default:
				return;
		}
	}
};

const size_t huge = std::numeric_limits<size_t>::max();
} // namespace

// all sequences of operations over small buffers
MC_SUITE(op_sequences)
{
	static const size_t sizes[] = {0, 1, 2, 3, 4, 7, 8, 9, 12, 15};
	fixture f(pick(sizes), 0);
	unsigned depth = by_tier(3u, 4u);
	for (unsigned i = 0; i != depth; ++i) {
		unsigned k = choose(f.num_fixed + 3 * 5);
		if (k < f.num_fixed) {
			f.fixed(k);
		} else {
			k -= f.num_fixed;
			static const size_t lens[] = {0, 1, 3, 5, huge};
			size_t len = lens[k / 3];
			switch (k % 3) {
				case 0:
					f.str(len);
					break;
				case 1:
					f.spn(len);
					break;
				default:
					f.skip(len);
					break;
			}
		}
	}
}

// every operation at every (buffer size, position): includes the exact fit and the one-byte-short cases
MC_SUITE(every_op_every_position)
{
	size_t n = choose(by_tier(26u, 40u));
	size_t pos = choose(uint32_t(n) + 1);
	fixture f(n, uint32_t(n * 131 + pos + 1));
	unsigned how = choose(3);
	if (pos) {
		how == 0 ? f.skip(pos) : how == 1 ? f.spn(pos) : f.str(pos);
	}
	unsigned k = choose(f.num_fixed + 3 * 8);
	auto run = [&](unsigned k) {
		if (k < f.num_fixed) {
			f.fixed(k);
		} else {
			k -= f.num_fixed;
			size_t left = n - f.pos;
			const size_t lens[] = {0, 1, left, left + 1, left ? left - 1 : 0, huge, huge - f.pos, huge / 2 + 1};
			size_t len = lens[k / 3];
			switch (k % 3) {
				case 0:
					f.str(len);
					break;
				case 1:
					f.spn(len);
					break;
				default:
					f.skip(len);
					break;
			}
		}
	};
	run(k);
	// after a failed (or succeeded) read the next reads are still consistent
	run(k);
	f.fixed(0);
	f.spn(n - f.pos);
	f.fixed(0);
}

// large buffers: reading them through in uniform steps
MC_SUITE(long_buffers)
{
	static const size_t sizes[] = {127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32769, 65535, 65536, 65537, 70001};
	size_t n = pick(sizes);
	unsigned k = choose(fixture::num_fixed - 2 + 3);
	fixture f(n, 99 + k);
	if (k < fixture::num_fixed - 2) {
		unsigned steps_left = 80000;
		for (size_t before = n + 1; f.pos != before && steps_left; --steps_left) {
			before = f.pos;
			f.fixed(k);
		}
	} else {
		k -= fixture::num_fixed - 2;
		for (size_t len : {size_t(1), size_t(126), size_t(127), size_t(128), size_t(255), size_t(256), size_t(1000), n / 2, n - 1, n, n + 1}) {
			k == 0 ? f.str(len) : k == 1 ? f.spn(len) : f.skip(len);
		}
	}
}

// values: every byte value in every position of the multi-byte numbers
MC_SUITE(values)
{
	unsigned k = choose(9);
	static const unsigned w[] = {1, 2, 4, 8, 2, 4, 8, 4, 4};
	fixture f(w[k] + 1, 0);
	unsigned at = choose(w[k]);
	unsigned bg = choose(3);
	memset(f.p.get(), bg == 0 ? 0 : bg == 1 ? 0xff : 0x80, w[k] + 1);
	f.p[at] = uint8_t(choose(256));
	f.fixed(k);
	f.fixed(0);
	f.fixed(0);
}
