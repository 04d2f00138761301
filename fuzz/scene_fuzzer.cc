// C10: memory safety and termination of the C++ renderer on any scene with consistent sizes and indices.
// Every array is a heap block of its exact size, so that the address sanitizer sees any access out of it.
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "DifferentiableRenderer.h"

struct Reader
{
	const uint8_t *p;
	size_t n, i = 0, laps = 0;
	uint8_t u8()
	{
		if (n == 0)
			return 0;
		if (i == n)
		{
			i = 0;
			laps++;
		}
		return (uint8_t)(p[i++] + 37 * laps);
	}
	uint16_t u16() { return (uint16_t)(u8() | (u8() << 8)); }
	int range(int lo, int hi) { return lo + u8() % (hi - lo + 1); }
	// coordinates of all kinds, around an image of the given size
	double value(int mode, double size)
	{
		static const double special[] = {0, -0.0, 1, -1, 0.5, NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e-300, 1e308, -1e308, 4.9e-324, 32766, 32767, 32768, -32767, -32768, -32769,
										 65535, 65536, 65537, -65536, 2147483647., 2147483648., -2147483648., -2147483649., 4294967296., 9.3e18, -9.3e18, 1e10, -1e10, 98303, 16383.5, 2e5};
		switch (mode)
		{
		case 0:
			return u16() / 65535.0 * (size + 4) - 2;
		case 1:
			return (u8() % (int)(4 * (size + 6))) / 4.0 - 3;
		case 2:
			return special[u8() % (sizeof(special) / sizeof(special[0]))];
		case 3:
		{
			uint64_t b = 0;
			for (int k = 0; k < 8; k++)
				b = (b << 8) | u8();
			double v;
			memcpy(&v, &b, 8);
			return v;
		}
		case 4:
		{
			double v = u16() / 65535.0 - 0.5;
			return v * std::pow(10.0, (int)(u8() % 20) - 2);
		}
		case 5:
			return u8() % (int)(size + 1);
		default:
			return value(u8() % 6, size);
		}
	}
};

static double *doubles(size_t n) { return (double *)malloc(n ? n * sizeof(double) : 1); }

struct Guarded
{
	std::vector<std::pair<void *, std::vector<char>>> blocks;
	void add(void *p, size_t bytes) { blocks.push_back({p, std::vector<char>((char *)p, (char *)p + bytes)}); }
	void verify()
	{
		for (auto &b : blocks)
			if (!b.second.empty() && memcmp(b.first, b.second.data(), b.second.size()))
			{
				fprintf(stderr, "an input of the renderer was modified\n");
				abort();
			}
	}
};

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	if (size < 8)
		return 0;
	Reader r{data, size};
	Scene s;
	memset(&s, 0, sizeof(s));
	int flags = r.u8(), flags2 = r.u8();
	s.clockwise = flags & 1;
	s.backface_culling = (flags & 2) || (flags & 64);
	s.strict_edge = flags & 4;
	s.perspective_correct = (flags & 8) && (flags & 128);
	s.integer_pixel_centers = flags & 16;
	bool bg_image = flags & 32;
	bool many = (flags2 & 7) == 7;
	s.height = r.range(1, 20);
	s.width = r.range(1, 20);
	s.nb_colors = r.range(1, 4);
	s.nb_triangles = many ? r.range(17, 60) : r.range(0, 6);
	s.nb_vertices = r.range(1, 12);
	s.nb_uv = r.range(1, 6);
	s.texture_height = r.range(1, 5);
	s.texture_width = r.range(1, 5);
	int mode_xy = r.u8() % 8, mode_z = r.u8() % 8, mode_v = r.u8() % 8, mode_uv = r.u8() % 8;
	double sigma;
	switch (r.u8() % 6)
	{
	case 0:
		sigma = 0;
		break;
	case 1:
		sigma = r.value(6, 5);
		break;
	case 2:
		sigma = 1e-3;
		break;
	default:
		sigma = (1 + r.u8() % 40) / 8.0;
	}
	int nf = s.nb_triangles;
	size_t np = (size_t)s.height * s.width;
	Guarded inputs;
	s.faces = (unsigned int *)malloc(nf ? nf * 12 : 1);
	s.faces_uv = (unsigned int *)malloc(nf ? nf * 12 : 1);
	s.edgeflags = (bool *)malloc(nf ? nf * 3 : 1);
	s.textured = (bool *)malloc(nf ? nf : 1);
	s.shaded = (bool *)malloc(nf ? nf : 1);
	for (int k = 0; k < nf; k++)
	{
		for (int i = 0; i < 3; i++)
		{
			s.faces[3 * k + i] = r.u8() % s.nb_vertices;
			s.faces_uv[3 * k + i] = r.u8() % s.nb_uv;
			s.edgeflags[3 * k + i] = (flags2 & 8) ? true : (r.u8() & 1);
		}
		int t = r.u8();
		s.textured[k] = (flags2 & 16) ? (t & 1) : (flags2 & 32) != 0;
		s.shaded[k] = (t & 6) != 0;
	}
	s.ij = doubles(2 * s.nb_vertices);
	s.depths = doubles(s.nb_vertices);
	s.shade = doubles(s.nb_vertices);
	s.colors = doubles(s.nb_vertices * s.nb_colors);
	for (int k = 0; k < s.nb_vertices; k++)
	{
		s.ij[2 * k] = r.value(mode_xy, s.width);
		s.ij[2 * k + 1] = r.value(mode_xy, s.height);
		s.depths[k] = mode_z < 3 ? 0.5 + r.u8() / 100.0 : r.value(mode_z, 4);
		s.shade[k] = mode_v < 5 ? r.u8() / 255.0 : r.value(mode_v, 2);
		for (int c = 0; c < s.nb_colors; c++)
			s.colors[k * s.nb_colors + c] = mode_v < 5 ? r.u8() / 255.0 : r.value(mode_v, 2);
	}
	s.uv = doubles(2 * s.nb_uv);
	for (int k = 0; k < 2 * s.nb_uv; k++)
		s.uv[k] = mode_uv < 3 ? r.u8() / 255.0 * 8 - 2 : r.value(mode_uv, 5);
	size_t nt = (size_t)s.texture_height * s.texture_width * s.nb_colors;
	s.texture = doubles(nt);
	for (size_t k = 0; k < nt; k++)
		s.texture[k] = r.u8() / 255.0;
	size_t nb = bg_image ? np * s.nb_colors : s.nb_colors;
	double *bg = doubles(nb);
	for (size_t k = 0; k < nb; k++)
		bg[k] = (k * 7 % 11) / 11.0;
	if (bg_image)
		s.background_image = bg;
	else
		s.background_color = bg;
	double *obs = doubles(np * s.nb_colors);
	for (size_t k = 0; k < np * s.nb_colors; k++)
		obs[k] = (k * 5 % 13) / 13.0;
	inputs.add(s.faces, nf * 12);
	inputs.add(s.faces_uv, nf * 12);
	inputs.add(s.edgeflags, nf * 3);
	inputs.add(s.textured, nf);
	inputs.add(s.shaded, nf);
	inputs.add(s.ij, 16 * s.nb_vertices);
	inputs.add(s.depths, 8 * s.nb_vertices);
	inputs.add(s.shade, 8 * s.nb_vertices);
	inputs.add(s.colors, 8 * s.nb_vertices * s.nb_colors);
	inputs.add(s.uv, 16 * s.nb_uv);
	inputs.add(s.texture, 8 * nt);
	inputs.add(bg, 8 * nb);
	inputs.add(obs, 8 * np * s.nb_colors);
	double *image = doubles(np * s.nb_colors), *z = doubles(np), *err = doubles(np);
	double *image_b = doubles(np * s.nb_colors), *err_b = doubles(np);
	s.uv_b = doubles(2 * s.nb_uv);
	s.ij_b = doubles(2 * s.nb_vertices);
	s.shade_b = doubles(s.nb_vertices);
	s.colors_b = doubles(s.nb_vertices * s.nb_colors);
	s.texture_b = doubles(nt);
	memset(s.uv_b, 0, 16 * s.nb_uv);
	memset(s.ij_b, 0, 16 * s.nb_vertices);
	memset(s.shade_b, 0, 8 * s.nb_vertices);
	memset(s.colors_b, 0, 8 * s.nb_vertices * s.nb_colors);
	memset(s.texture_b, 0, 8 * nt);
	for (size_t k = 0; k < np * s.nb_colors; k++)
		image_b[k] = (int)(k * 3 % 7) - 3;
	for (size_t k = 0; k < np; k++)
		err_b[k] = (int)(k % 5) - 2;
	bool backward = s.backface_culling && !s.perspective_correct;
	try
	{
		renderScene(s, image, z, sigma, false, NULL, NULL);
		inputs.verify();
		if (backward)
			renderScene_B(s, image, z, image_b, sigma, false, NULL, NULL, NULL);
		inputs.verify();
		renderScene(s, image, z, sigma, true, obs, err);
		inputs.verify();
		if (backward)
			renderScene_B(s, image, z, NULL, sigma, true, obs, err, err_b);
		inputs.verify();
	}
	catch (const char *e)
	{
		fprintf(stderr, "a valid scene is rejected: %s\n", e);
		abort();
	}
	for (void *p : {(void *)s.faces, (void *)s.faces_uv, (void *)s.edgeflags, (void *)s.textured, (void *)s.shaded, (void *)s.ij, (void *)s.depths, (void *)s.shade,
					(void *)s.colors, (void *)s.uv, (void *)s.texture, (void *)bg, (void *)obs, (void *)image, (void *)z, (void *)err, (void *)image_b, (void *)err_b,
					(void *)s.uv_b, (void *)s.ij_b, (void *)s.shade_b, (void *)s.colors_b, (void *)s.texture_b})
		free(p);
	return 0;
}
