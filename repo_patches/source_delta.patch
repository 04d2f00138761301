From bb98dde32f7fe4be835578d74a63285bc198e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 01/73] fix: antialias exactly horizontal and vertical
 silhouette edges

The inequalities that bound the overdraw of an axis aligned edge do not depend
on x; dividing by that zero coefficient excluded the pixels inside the band,
so these edges were never antialiased.
---
 C++/DifferentiableRenderer.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..ac504fd 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2628,7 +2628,17 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 	for (short int k = 0; k < 4; k++)
 	{
 		numerator = -(ineq[3 * k + 1] * y + ineq[3 * k + 2]);
-		if (ineq[3 * k] < 0)
+		if (ineq[3 * k] == 0)
+		{
+			// the inequality does not depend on x, which happens with exactly horizontal or vertical edges.
+			// We use in the y direction the same half-open convention as in the x direction.
+			if ((ineq[3 * k + 1] < 0) ? (numerator > 0) : (numerator >= 0))
+			{
+				x_end = x_begin - 1;
+				return;
+			}
+		}
+		else if (ineq[3 * k] < 0)
 		{
 			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x < x_end)
-- 
2.43.0


From dde82855ced594c4feafb9d2f919635de970ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 02/73] fix: finite gradient when a silhouette edge passes
 through a pixel center

The backward pass restored the color hidden by the overdraw by dividing by a
transparency that is zero there, giving NaN gradients.
---
 C++/DifferentiableRenderer.h | 48 +++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index ac504fd..cdd67b9 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -47,6 +47,11 @@ using namespace std;
 		_b_ = _c_;          \
 	}
 
+// When an edge passes exactly through a pixel center its overdraw hides completely what was drawn before,
+// which can then not be restored. We are at a kink of the rendering function and use the derivative obtained when
+// the pixel is entirely covered, for which the transparency does not matter.
+const double MIN_RESTORABLE_TRANSPARENCY = 1e-10;
+
 void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin, int &x_end);
 inline void render_part_interpolated(double *image, double *z_buffer, int y_begin, int x_min, int x_max, int y_end, bool strict_edge, double *xy1_to_A, double *xy1_to_Z, double *left_eq, double *right_eq, int width, int height, int sizeA, bool perspective_correct);
 inline void render_part_interpolated_B(double *image, double *image_B, double *z_buffer, int x_min, int x_max, int y_begin, int y_end, bool strict_edge, double *xy1_to_A, double *xy1_to_A_B, double *xy1_to_Z, double *left_eq, double *right_eq, int width, int height, int sizeA, bool perspective_correct);
@@ -1730,14 +1735,18 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 					//image[sizeA*indx+k]*= T;
 
 					//image[sizeA*indx+k]+= (1-T)*A;
-					T_B += -image_B[sizeA * indx + k] * A;
 					double A_B = (1 - T) * image_B[sizeA * indx + k];
 
-					// restoring the color before edge drawned
+					if (T > MIN_RESTORABLE_TRANSPARENCY)
+					{
+						T_B += -image_B[sizeA * indx + k] * A;
 
-					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;
+						// restoring the color before edge drawned
 
-					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
+						image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;
+
+						T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
+					}
 
 					image_B[sizeA * indx + k] *= T;
 
@@ -2009,11 +2018,14 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 				{
 					//image[sizeA*indx+k]*= T;
 					//image[sizeA*indx+k]+= (1-T)*A[k]*L;
-					T_B += -image_B[sizeA * indx + k] * A[k] * L;
 					A_B[k] += L * (1 - T) * image_B[sizeA * indx + k];
 					L_B += image_B[sizeA * indx + k] * (1 - T) * A[k];
-					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A[k] * L) / T;
-					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
+					if (T > MIN_RESTORABLE_TRANSPARENCY)
+					{
+						T_B += -image_B[sizeA * indx + k] * A[k] * L;
+						image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A[k] * L) / T;
+						T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
+					}
 					image_B[sizeA * indx + k] *= T;
 				}
 
@@ -2305,11 +2317,14 @@ void rasterize_edge_textured_gouraud_error_B(double Vxy[][2], double Vxy_B[][2],
 				double Err_B = 0;
 				//	err_buffer[indx]*= Tr;
 				//	err_buffer[indx]+= (1-Tr)*Err;
-				Tr_B += -Err * err_buffer_B[indx];
 				Err_B += (1 - Tr) * err_buffer_B[indx];
-				err_buffer[indx] -= (1 - Tr) * Err;
-				err_buffer[indx] /= Tr;
-				Tr_B += err_buffer_B[indx] * err_buffer[indx];
+				if (Tr > MIN_RESTORABLE_TRANSPARENCY)
+				{
+					Tr_B += -Err * err_buffer_B[indx];
+					err_buffer[indx] -= (1 - Tr) * Err;
+					err_buffer[indx] /= Tr;
+					Tr_B += err_buffer_B[indx] * err_buffer[indx];
+				}
 				err_buffer_B[indx] *= Tr;
 
 				for (int k = 0; k < sizeA; k++)
@@ -2569,11 +2584,14 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 				double Err_B = 0;
 				//	err_buffer[indx]*= Tr;
 				//	err_buffer[indx]+= (1-Tr)*Err;
-				Tr_B += -Err * err_buffer_B[indx];
 				Err_B += (1 - Tr) * err_buffer_B[indx];
-				err_buffer[indx] -= (1 - Tr) * Err;
-				err_buffer[indx] /= Tr;
-				Tr_B += err_buffer_B[indx] * err_buffer[indx];
+				if (Tr > MIN_RESTORABLE_TRANSPARENCY)
+				{
+					Tr_B += -Err * err_buffer_B[indx];
+					err_buffer[indx] -= (1 - Tr) * Err;
+					err_buffer[indx] /= Tr;
+					Tr_B += err_buffer_B[indx] * err_buffer[indx];
+				}
 				err_buffer_B[indx] *= Tr;
 
 				for (int k = 0; k < sizeA; k++)
-- 
2.43.0


From 2cb3b2b143bdb56b6469f38f1be33993427f4522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 03/73] fix: accumulate the texture gradient instead of
 overwriting it

A texel is in general sampled by several pixels; only the contribution of the
last one was kept.
---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index cdd67b9..3df534d 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -623,10 +623,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From 5c2fe71dd95bfffe07a1ab04b3dc9337796f1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 04/73] fix: do not access texels out of the bounds of a
 texture with a single row or column

---
 C++/DifferentiableRenderer.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 3df534d..1ee3c14 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -552,13 +552,19 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 			fp[k] = I_size[k] - 2;
 			e[k] = 1;
 		}
+		if (I_size[k] < 2)
+		{
+			// single texel in that direction : there is no next texel
+			fp[k] = 0;
+			e[k] = 0;
+		}
 	}
 	// bilinear interpolation
 
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + (I_size[0] > 1) + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + (I_size[1] > 1)));
+	int indx11 = sizeA * (fp[0] + (I_size[0] > 1) + I_size[0] * (fp[1] + (I_size[1] > 1)));
 
 	for (int k = 0; k < sizeA; k++)
 		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
@@ -597,14 +603,20 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 			fp[k] = I_size[k] - 2;
 			e[k] = 1;
 		}
+		if (I_size[k] < 2)
+		{
+			// single texel in that direction : there is no next texel
+			fp[k] = 0;
+			e[k] = 0;
+		}
 	}
 
 	// bilinear interpolation
 
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + (I_size[0] > 1) + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + (I_size[1] > 1)));
+	int indx11 = sizeA * (fp[0] + (I_size[0] > 1) + I_size[0] * (fp[1] + (I_size[1] > 1)));
 
 	//for(int k=0;k<sizeA;k++)
 	//	A[k]=( (1-e[0])*I[indx00+k] + e[0]*I[indx10+k] )*(1-e[1])+( (1-e[0])*I[indx01+k] + e[0]*I[indx11+k] )*e[1];
-- 
2.43.0


From de00ec103063669152bc4345f485db7498d0ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 05/73] fix: rasterize triangles with vertices projected
 further than 32767 pixels from the image

The conversion to short wrapped around.
---
 C++/DifferentiableRenderer.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 1ee3c14..edd60a0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -647,6 +647,16 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 	}
 }
 
+inline short int saturate_to_short(double value)
+{
+	// the projection of a vertex can be arbitrarily far from the image
+	if (value < SHRT_MIN)
+		return SHRT_MIN;
+	if (value > SHRT_MAX)
+		return SHRT_MAX;
+	return (short int)value;
+}
+
 void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], double xy1_to_bary[9], double edge_eq[][3], bool strict_edge, int &x_min, int &x_max, int *y_begin, int *y_end, int *left_edge_id, int *right_edge_id)
 {
 
@@ -693,39 +703,39 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = saturate_to_short(floor(x_sorted[0]));
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = saturate_to_short(ceil(x_sorted[0]));
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = saturate_to_short(floor(x_sorted[2]));
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = saturate_to_short(floor(y_sorted[0])) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = saturate_to_short(ceil(y_sorted[0]));
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = saturate_to_short(floor(y_sorted[1]));
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = saturate_to_short(floor(y_sorted[1])) + 1;
 	}
 	else
 	{
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = saturate_to_short(ceil(y_sorted[1]));
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = saturate_to_short(floor(y_sorted[2]));
 
 	// set left_edge_id and right_edge_id
 
-- 
2.43.0


From e33a21aa652f27ff710b6e7bbdf3debdc0c396e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 06/73] fix: place PerspectiveCamera at the requested camera
 center for any rotation

With x_cam = rot.x_world + trans the center is -rot^T.trans, so the
translation has to be -rot.center.
---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 0022cca..f093adb 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -485,7 +485,7 @@ class PerspectiveCamera(Camera):
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.T.dot(camera_center)
+        trans = -rot.dot(camera_center)
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
-- 
2.43.0


From 56199793aa2f1dd5facebe1858b904403cc86180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 07/73] fix: gradient of the camera projection for non
 symmetric rotations and skewed intrinsics

The adjoint of x -> x.M^T is y -> y.M.
---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f093adb..e24bba1 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -396,7 +396,7 @@ class Camera:
     ) -> np.ndarray:
         if self.distortion is None:
             p_camera, depths, projected = store_backward["project_points"]
-            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
 
         else:
             p_camera, depths, projected, r2, radial_distortion = store_backward["project_points"]
@@ -409,7 +409,7 @@ class Camera:
             ) = self.distortion
             x = projected[:, 0]
             y = projected[:, 1]
-            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
             distorted_x_b = distorted_b[:, 0]
             distorted_y_b = distorted_b[:, 1]
             x_b = distorted_x_b * radial_distortion
@@ -435,7 +435,7 @@ class Camera:
         )
         if depths_b is not None:
             p_camera_b[:, 2] += depths_b
-        return p_camera_b.dot(self.extrinsic[:3, :3].T)
+        return p_camera_b.dot(self.extrinsic[:3, :3])
 
     def get_center(self) -> np.ndarray:
         return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])
-- 
2.43.0


From c8947907ed2a0d327e9e5bde73f52f306b4de87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 08/73] fix: pytorch gradients when several images are rendered
 before calling backward

The backward pass used the scene of the last rendering for all of them.
---
 deodr/pytorch/differentiable_renderer_pytorch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..37c80cd 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -1,6 +1,7 @@
 # type: ignore
 """Pytorch interface to deodr."""
 
+import copy
 from typing import Any, List, Optional, Tuple, Union
 
 import numpy as np
@@ -48,7 +49,8 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
+        # shallow copy as scene.scene_2d is replaced if another image is rendered before calling backward
+        ctx.scene = copy.copy(scene)
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
         scene.colors = colors.detach().numpy()
-- 
2.43.0


From 949f6ec2c556f74f4caacc38c8bae66158adc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 09/73] fix: pytorch backward with non contiguous incoming
 gradients and repeated backward

sum().backward() failed as the expanded gradient is not contiguous, and the
gradient tensor and the saved image were modified in place.
---
 deodr/pytorch/differentiable_renderer_pytorch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 37c80cd..bc168a8 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -65,14 +65,16 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     @staticmethod
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
-        image_b = grad_outputs[0]
+        # copies as the buffers are modified in place and the incoming gradient may not be contiguous
+        image_b = np.array(grad_outputs[0].numpy(), order="C")
+        image = ctx.image.copy()
         scene = ctx.scene
         scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
         scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
         scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
         scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
         scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, image, ctx.z_buffer, image_b)
         return (
             torch.as_tensor(scene.scene_2d.ij_b),
             torch.as_tensor(scene.scene_2d.colors_b),
-- 
2.43.0


From 137d2b5d86db4c132c02ce96e3b8b921a3633747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 10/73] fix: use the sigma of the scene in the pytorch renderer
 instead of 1

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index bc168a8..12d3f80 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -54,7 +54,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
         scene.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, scene.sigma, image, z_buffer)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -74,7 +74,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
         scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
         scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, image, ctx.z_buffer, image_b)
+        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, scene.sigma, image, ctx.z_buffer, image_b)
         return (
             torch.as_tensor(scene.scene_2d.ij_b),
             torch.as_tensor(scene.scene_2d.colors_b),
-- 
2.43.0


From 757aa5e428b206a7850a544adec0b7b3e230640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 11/73] fix: raise a python exception instead of aborting when
 the C++ renderer rejects a scene

---
 deodr/differentiable_renderer_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 620a4be9536121b9ad8eb0d5bd2614f35b915686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 12/73] fix: do not draw faces with vertices behind the camera
 when backface culling is off

---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index edd60a0..dc5000c 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2833,7 +2833,7 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 	float pixel_center_offset = scene.integer_pixel_centers ? 0 : 0.5;
 
 	for (int k = 0; k < scene.nb_triangles; k++)
-		if ((signedAreaV[k] > 0) || (!scene.backface_culling))
+		if ((signedAreaV[k] > 0) || (!scene.backface_culling && signedAreaV[k] < 0))
 		{
 			unsigned int *face = &scene.faces[k * 3];
 			double ij[3][2];
-- 
2.43.0


From 90d62e81c6b1a4fb851449a249c664dcfcc89109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 13/73] fix: texture coordinate gradient of faces that use the
 same texture coordinate for several corners

---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index dc5000c..d8ba811 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -3046,7 +3046,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 								for (int j = 0; j < 2; j++)
 								{
 									uv[i][j] = scene.uv[face_uv[sub[i]] * 2 + j];
-									uv_b[i][j] = scene.uv_b[face_uv[sub[i]] * 2 + j];
+									uv_b[i][j] = 0;
 								}
 
 							double shade[2];
@@ -3069,7 +3069,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 							for (int i = 0; i < 2; i++)
 								for (int j = 0; j < 2; j++)
 								{
-									scene.uv_b[face_uv[sub[i]] * 2 + j] = uv_b[i][j];
+									scene.uv_b[face_uv[sub[i]] * 2 + j] += uv_b[i][j];
 								}
 							for (int i = 0; i < 2; i++)
 							{
@@ -3147,14 +3147,14 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 					for (int j = 0; j < 2; j++)
 					{
 						uv[i][j] = scene.uv[face_uv[i] * 2 + j];
-						uv_b[i][j] = scene.uv_b[face_uv[i] * 2 + j];
+						uv_b[i][j] = 0;
 					}
 
 				rasterize_triangle_textured_gouraud_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, image, image_b, scene.height, scene.width, scene.nb_colors, scene.texture, scene.texture_b, Texture_size, scene.strict_edge, scene.perspective_correct);
 				for (int i = 0; i < 3; i++)
 					for (int j = 0; j < 2; j++)
 					{
-						scene.uv_b[face_uv[i] * 2 + j] = uv_b[i][j];
+						scene.uv_b[face_uv[i] * 2 + j] += uv_b[i][j];
 					}
 				for (int i = 0; i < 3; i++)
 					scene.shade_b[face[i]] = shade_b[i];
-- 
2.43.0


From 511abc7d0235c44d4535219645e7d601d503bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 14/73] fix: reject buffers that do not match the size of the
 scene instead of accessing memory out of bounds

---
 deodr/differentiable_renderer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index e24bba1..61996d9 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -66,6 +66,9 @@ def renderScene(
         width = image.shape[1]
         nb_colors = image.shape[2]
 
+        assert scene.height == height
+        assert scene.width == width
+
         nb_triangles = scene.faces.shape[0]
         assert nb_triangles == scene.faces_uv.shape[0]
         nb_vertices = scene.depths.shape[0]
@@ -73,6 +76,7 @@ def renderScene(
 
         assert scene.faces.dtype == np.uint32
         assert np.all(scene.faces < nb_vertices)
+        assert np.all(scene.faces_uv >= 0)
         assert np.all(scene.faces_uv < nb_vertices_uv)
 
         assert scene.colors.ndim == 2
@@ -149,6 +153,9 @@ def renderSceneB(
         height = image.shape[0]
         width = image.shape[1]
         nb_colors = image.shape[2]
+        assert scene.height == height
+        assert scene.width == width
+
         nb_triangles = scene.faces.shape[0]
 
         assert nb_colors == scene.colors.shape[1]
@@ -161,6 +168,7 @@ def renderSceneB(
 
         assert scene.faces.dtype == np.uint32
         assert np.all(scene.faces < nb_vertices)
+        assert np.all(scene.faces_uv >= 0)
         assert np.all(scene.faces_uv < nb_vertices_uv)
 
         assert scene.colors.ndim == 2
@@ -231,10 +239,15 @@ def renderSceneB(
             assert err_buffer.shape[1] == width
             assert obs.shape[0] == height
             assert obs.shape[1] == width
+            assert obs.shape[2] == nb_colors
+            assert err_buffer_b is not None
+            assert err_buffer_b.shape[0] == height
+            assert err_buffer_b.shape[1] == width
         else:
             assert image_b is not None
             assert image_b.shape[0] == height
             assert image_b.shape[1] == width
+            assert image_b.shape[2] == nb_colors
 
     differentiable_renderer_cython.renderSceneBCpp(
         scene,
-- 
2.43.0


From 3723628ab009c34deeb137b8826876e6125508d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 15/73] fix: do not modify the image gradient provided by the
 caller in the backward pass

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 61996d9..4ef3392 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -660,7 +660,7 @@ class Scene2D(Scene2DBase):
                 antialiase_error,
                 obs,
                 err_buffer.copy(),
-                err_buffer_b,
+                err_buffer_b.copy(),
             )
         else:
             renderSceneB(
@@ -692,7 +692,7 @@ class Scene2D(Scene2DBase):
                 sigma,
                 image.copy(),
                 z_buffer,
-                image_b,
+                image_b.copy(),
                 antialiase_error,
                 None,
                 None,
@@ -881,7 +881,7 @@ class Scene3D:
         image, z_buffer = self.store_backward_current["render_2d"]
         # self.ij = np.array(ij)
         # self.colors = np.array(colors)
-        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b)
+        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())
         self.scene_2D = None
 
     @overload
-- 
2.43.0


From 2e0b3b34f06cc8620af069b710fdf6f29715a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 16/73] fix: use the perspective_correct flag of the scene in
 render_depth

---
 deodr/differentiable_renderer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 4ef3392..1bfb507 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1040,6 +1040,7 @@ class Scene3D:
             clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             strict_edge=True,
+            perspective_correct=self.perspective_correct,
             background_color=self.background_color,
             integer_pixel_centers=self.integer_pixel_centers,
         )
-- 
2.43.0


From 3b287fc0e07a22fa57b76cd65fa2fa1562e8b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 17/73] fix: render_deferred with clockwise meshes, perspective
 correct scenes and any number of color channels

---
 deodr/differentiable_renderer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 1bfb507..66b7b03 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1130,7 +1130,7 @@ class Scene3D:
         if self.mesh.uv is None:
             if color:
                 assert self.mesh.vertices_colors is not None
-                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, 3)
+                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, -1)
                 channels["color"] = soup_vertices_colors
         elif uv:
             soup_uv = self.mesh.uv[self.mesh.faces_uv].reshape(soup_nb_vertices, 2)
@@ -1177,6 +1177,8 @@ class Scene3D:
             background_image=background_image,
             backface_culling=backface_culling,
             background_color=None,
+            clockwise=self.mesh.clockwise,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         buffers = np.empty((camera.height, camera.width, nb_colors))
-- 
2.43.0


From 7db07843fba2a44f23c7ae3875bfd0117f99dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 18/73] fix: lazy computation of the mesh adjacencies

---
 deodr/triangulated_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..aa422cf 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -188,6 +188,7 @@ class TriMesh:
 
         self._face_normals: Optional[np.ndarray] = None
         self._vertex_normals: Optional[np.ndarray] = None
+        self._adjacencies: Optional[TriMeshAdjacencies] = None
         self.clockwise = clockwise
 
         self._vertices_b = np.zeros((self.nb_vertices, 3))
@@ -214,6 +215,7 @@ class TriMesh:
     def adjacencies(self) -> TriMeshAdjacencies:
         if self._adjacencies is None:
             self.compute_adjacencies()
+        assert self._adjacencies is not None
         return self._adjacencies
 
     def set_vertices(self, vertices: np.ndarray) -> None:
@@ -229,7 +231,7 @@ class TriMesh:
         surfaces is a closed manifold. This is done by summing the volumes of the
         simplices formed by joining the origin and the vertices of each triangle.
         """
-        if not self._adjacencies.is_closed:
+        if not self.adjacencies.is_closed:
             raise (BaseException("The volume can only be computed for closed manifold surfaces"))
         return (
             (-1 if self.clockwise else 1)
-- 
2.43.0


From 7d8a7af30700feaaacefa8928eb86b7e70aca4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 19/73] fix: vertices that do not belong to any face have no
 neighbor

---
 deodr/triangulated_mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index aa422cf..5e64825 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -83,9 +83,10 @@ class TriMeshAdjacencies:
             )
         )
         self.faces_edges = sparse.coo_matrix((id_edge, (id_faces, v)), shape=(self.nb_faces, 3)).todense()
-        self.adjacency_vertices = ((self._vertices_faces * self._vertices_faces.T) > 0) - sparse.eye(self.nb_vertices)
-
         self.degree_v_f = self._vertices_faces.dot(np.ones((self.nb_faces)))
+        self.adjacency_vertices = ((self._vertices_faces * self._vertices_faces.T) > 0) - sparse.diags(
+            (self.degree_v_f > 0).astype(np.float64)
+        )
 
         self.degree_v_e = self.adjacency_vertices.dot(
             np.ones((self.nb_vertices))
-- 
2.43.0


From 3581ae2f99774edc97e4c3afd094060907b918bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 20/73] fix: keep the clockwise flag in the loop subdivision

---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 5e64825..796f66e 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -562,4 +562,5 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
         faces=new_faces,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
+        clockwise=mesh.clockwise,
     )
-- 
2.43.0


From 79aea3916326764337c19baa012dce34218d48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 21/73] fix: loop subdivision of meshes with boundaries

---
 deodr/triangulated_mesh.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 796f66e..be48d81 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -520,6 +520,18 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     moved_points = beta[:, None] * (mesh.adjacencies.adjacency_vertices * mesh.vertices) + (5 / 8) * mesh.vertices
     # moved_points = self.vertices
 
+    # specific rules along the boundaries of the mesh
+    is_boundary_edge = np.asarray(mesh.adjacencies.edges_faces_ones.sum(axis=1)).ravel() == 1
+    boundary_edges = mesh.adjacencies.edges[is_boundary_edge, :]
+    edge_mid_points[is_boundary_edge] = 0.5 * np.sum(mesh.vertices[boundary_edges, :], axis=1)
+    nb_boundary_neighbors = np.bincount(boundary_edges.flatten(), minlength=mesh.nb_vertices)
+    sum_boundary_neighbors = np.zeros(mesh.vertices.shape)
+    np.add.at(sum_boundary_neighbors, boundary_edges, mesh.vertices[boundary_edges[:, ::-1], :])
+    on_boundary = nb_boundary_neighbors > 0
+    moved_points[on_boundary] = (3 / 4) * mesh.vertices[on_boundary] + (1 / 4) * (
+        sum_boundary_neighbors[on_boundary] / nb_boundary_neighbors[on_boundary, None]
+    )
+
     new_vertices = np.vstack((moved_points, edge_mid_points))
     faces1 = np.column_stack(
         (
-- 
2.43.0


From df4054cec4d33fb2ded4850829b054b7cbc36fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 22/73] fix: compare the whole rendered image with the observed
 image in the multi frame fitter

---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..724594c 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -536,11 +536,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From ee651713a8adc073ed26a78a06877a92acfc58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 23/73] fix: do not update the lights or the color of the mesh
 when it has been disabled in the RGB fitters

---
 deodr/mesh_fitter.py                 | 56 +++++++++++++++-------------
 deodr/pytorch/mesh_fitter_pytorch.py | 26 +++++++------
 2 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 724594c..230eb6f 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -357,19 +357,21 @@ class MeshRGBFitterWithPose:
         )
         self.transform_translation = self.transform_translation + self.speed_translation
         # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_lights:
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
         # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_color:
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
@@ -612,21 +614,23 @@ class MeshRGBFitterWithPoseMultiFrame:
         )
         self.transform_translation = self.transform_translation + self.speed_translation
         # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step_light_ambient = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (
-            self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
-        )
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_lights:
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step_light_ambient = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (
+                self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
+            )
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
         # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_color:
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index badd532..8fa0686 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -503,19 +503,21 @@ class MeshRGBFitterWithPose:
         )
         self.transform_translation = self.transform_translation + self.speed_translation
         # update directional light
-        step = -light_directional_with_grad.grad.numpy() * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -light_ambient_with_grad.grad.numpy() * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_lights:
+            step = -light_directional_with_grad.grad.numpy() * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -light_ambient_with_grad.grad.numpy() * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
         # update mesh color
-        step = -mesh_color_with_grad.grad.numpy() * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_color:
+            step = -mesh_color_with_grad.grad.numpy() * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image.detach().numpy(), diff_image.detach().numpy()
-- 
2.43.0


From 3bc98a96175e9effd5ddd355acf3de126108b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 24/73] fix: read obj files with normals, texture coordinates,
 relative indices or continued lines

---
 deodr/obj.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..b6afc46 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,10 +23,10 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
-        if line.startswith("v"):
+            line = line[:-2] + fid.readline()
+        if line.startswith("v "):
             coord = line.split()
             coord.pop(0)
             node_counter += 1
@@ -39,9 +39,11 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-                v = int(f.split("/")[0]) - 1
+                v = int(f.split("/")[0])
                 if v < 0:
                     v = node_counter + v
+                else:
+                    v = v - 1
                 cleaned_fields.append(v)
             faces.append(np.array(cleaned_fields))
 
-- 
2.43.0


From cc41234b87f2e3b11823ed63c28d19ccd20ef6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 25/73] fix: raster files, sizes, labels and camera rotations
 in the exported meshlab projects

---
 deodr/meshlab_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index a962218..235b7f0 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -56,9 +56,9 @@ def export_meshlab(
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
-        vcg_camera.setAttribute("ViewportPx", f"{image.shape[0]} {image.shape[1]}")
-        rotation = np.diag([1, -1, -1, 1]).dot(mtx)
-        rotation[:3, 3] = 0
+        vcg_camera.setAttribute("ViewportPx", f"{image.shape[1]} {image.shape[0]}")
+        rotation = np.eye(4)
+        rotation[:3, :3] = np.diag([1, -1, -1]).dot(mtx[:3, :3].T)
         vcg_camera.setAttribute("RotationMatrix", " ".join([str(v) for v in rotation.flatten()]))
 
         ml_raster.appendChild(vcg_camera)
@@ -68,8 +68,8 @@ def export_meshlab(
         plane.setAttribute("semantic", "1")
         ml_raster.appendChild(plane)
 
-        imwrite(image_file, image.astype(np.uint8))
-        ml_mesh.setAttribute("label", image_file)
+        imwrite(os.path.join(os.path.dirname(filename), image_file), image.astype(np.uint8))
+        ml_raster.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
 
     xml.appendChild(render_group)
-- 
2.43.0


From f2c810adf9cf063b813d7ba2bfa65edef7b64764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 26/73] fix: use the clockwise flag and the number of vertices
 of the mesh in the pytorch adjacencies

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..9e87861 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From ed14546c2fbee721b28c955437a8627fb884d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 27/73] fix: face normals of pytorch meshes with exactly three
 faces

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 9e87861..bd1da11 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -37,7 +37,7 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         triangles = vertices[self.faces_torch, :]
         u = triangles[::, 1] - triangles[::, 0]
         v = triangles[::, 2] - triangles[::, 0]
-        n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
+        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
         l2 = (n**2).sum(dim=1)
         norm = l2.sqrt()
         return n / norm[:, None]
-- 
2.43.0


From 848fea1cdaff0739cc74271c9d60eee4144bb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 28/73] fix: silhouette edges of vertices projected too far
 from the image to be stored in an integer

---
 C++/DifferentiableRenderer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index d8ba811..5ec3250 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1467,7 +1467,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = (int)floor(Vxy[k][1] - sigma) + 1;
+			y_begin = saturate_to_short(floor(Vxy[k][1] - sigma)) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1478,7 +1478,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = (int)floor(Vxy[k][1] + sigma);
+			y_end = saturate_to_short(floor(Vxy[k][1] + sigma));
 	}
 	if (y_end > height - 1)
 	{
-- 
2.43.0


From b93e21ebe385bbc94528c8fd6dfc116580469577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 29/73] fix: row range of triangles with two vertices projected
 further than 32767 pixels below the image

---
 C++/DifferentiableRenderer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 5ec3250..9405ce8 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -716,7 +716,7 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	if (strict_edge)
 	{
 
-		y_begin[0] = saturate_to_short(floor(y_sorted[0])) + 1;
+		y_begin[0] = saturate_to_short(floor(y_sorted[0]) + 1);
 	}
 	else
 	{
@@ -729,7 +729,7 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = saturate_to_short(floor(y_sorted[1])) + 1;
+		y_begin[1] = saturate_to_short(floor(y_sorted[1]) + 1);
 	}
 	else
 	{
-- 
2.43.0


From 52a5f0a79dcc341c00ba7da8d3cecb949985f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 30/73] fix: empty spans in the last column of a triangle when
 strict_edge is off

---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9405ce8..2e2ff6e 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -919,7 +919,7 @@ inline void get_xrange(int width, const double *left_eq, const double *right_eq,
 	else
 	{
 		// pixels falling exactly on an edge shared by two triangle will be drawn twice
-		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max);
+		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max + 1);
 	}
 	if (temp_x > x_begin)
 		x_begin = temp_x;
-- 
2.43.0


From f36999869a1d60c0d83fffaac4c0097792fe8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 31/73] fix: row of exactly horizontal edges when strict_edge
 is off

---
 C++/DifferentiableRenderer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 2e2ff6e..ded3649 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -737,6 +737,16 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	}
 	y_end[1] = saturate_to_short(floor(y_sorted[2]));
 
+	// an exactly horizontal edge does not bound its row, which is rasterized with the other part of the triangle
+	if (y_sorted[0] == y_sorted[1])
+	{
+		y_end[0] = y_begin[0] - 1;
+	}
+	if (y_sorted[1] == y_sorted[2])
+	{
+		y_end[1] = y_begin[1] - 1;
+	}
+
 	// set left_edge_id and right_edge_id
 
 	int id;
-- 
2.43.0


From df052269e64d2c7e8f352555c28b12964b73ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 32/73] fix: texture, uv and shade gradients counted twice on
 the row of the middle vertex when strict_edge is off

---
 C++/DifferentiableRenderer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index ded3649..5501341 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1377,6 +1377,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 				{
 					A_B[k] += image_B[sizeA * indx + k] * L;
 					L_B += image_B[sizeA * indx + k] * A[k];
+					image_B[sizeA * indx + k] = 0; // the row of the middle vertex can belong to both parts of the triangle
 				}
 				bilinear_sample_B(A, A_B, Texture, Texture_B, Texture_size, UV, UV_B, sizeA);
 				for (int k = 0; k < 2; k++)
-- 
2.43.0


From 7af44446a9a1e28a25979855231b06af6f9cf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 33/73] fix: out of bounds read of edge depths and shades in
 the perspective correct edge antialiasing

---
 C++/DifferentiableRenderer.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 5501341..55063a2 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -442,6 +442,18 @@ inline void elementwise_prod_vec3(const double input1[3], const double input2[3]
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline void elementwise_inverse_vec2(const double input[2], double ouput[2])
+{
+	for (int i = 0; i < 2; i++)
+		ouput[i] = 1 / input[i];
+}
+
+inline void elementwise_prod_vec2(const double input1[2], const double input2[2], double ouput[2])
+{
+	for (int i = 0; i < 2; i++)
+		ouput[i] = input1[i] * input2[i];
+}
+
 short int floor_div(double a, double b, int x_min, int x_max)
 {
 
@@ -1598,7 +1610,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 	if (perspective_correct)
 	{
 		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
@@ -1847,8 +1859,8 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 		double inv_Zvertex[3];
 		double ShadeVertex_div_z[3];
 
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2136,8 +2148,8 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 	{
 		double inv_Zvertex[3];
 		double ShadeVertex_div_z[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2438,7 +2450,7 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 	if (perspective_correct)
 	{
 		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		for (int i = 0; i < sizeA; i++)
 		{
-- 
2.43.0


From 3779ac73879c45a49e27a56bf0f1cb53a0be4152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:29 +0000
Subject: [PATCH 34/73] fix: overflow of texture coordinates beyond the range
 of integers, which were projected on the opposite border

---
 C++/DifferentiableRenderer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 55063a2..c117cc6 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -546,7 +546,8 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		// saturate to avoid overflows, coordinates outside of the texture are projected inside below
+		fp[k] = (int)floor(min(max(-1., p[k]), (double)I_size[k]));
 		e[k] = p[k] - fp[k];
 	}
 
@@ -595,7 +596,8 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		// saturate to avoid overflows, coordinates outside of the texture are projected inside below
+		fp[k] = (int)floor(min(max(-1., p[k]), (double)I_size[k]));
 		e[k] = p[k] - fp[k];
 	}
 
-- 
2.43.0


From 3290c2403143fec9ca7f3f7986d1587c938cd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:25 +0000
Subject: [PATCH 35/73] fix: reject faces that do not have three vertices

---
 deodr/differentiable_renderer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 66b7b03..d408a16 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -79,6 +79,10 @@ def renderScene(
         assert np.all(scene.faces_uv >= 0)
         assert np.all(scene.faces_uv < nb_vertices_uv)
 
+        assert scene.faces.ndim == 2
+        assert scene.faces.shape[1] == 3
+        assert scene.faces_uv.ndim == 2
+        assert scene.faces_uv.shape[1] == 3
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
         assert scene.ij.ndim == 2
@@ -171,6 +175,10 @@ def renderSceneB(
         assert np.all(scene.faces_uv >= 0)
         assert np.all(scene.faces_uv < nb_vertices_uv)
 
+        assert scene.faces.ndim == 2
+        assert scene.faces.shape[1] == 3
+        assert scene.faces_uv.ndim == 2
+        assert scene.faces_uv.shape[1] == 3
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
         assert scene.ij.ndim == 2
-- 
2.43.0


From f7766116b0abb4b8628498414b8658eef26c1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:25 +0000
Subject: [PATCH 36/73] fix: reject textured faces without texture

---
 deodr/differentiable_renderer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index d408a16..ebd3cec 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -118,6 +118,9 @@ def renderScene(
             assert scene.texture.shape[0] > 0
             assert scene.texture.shape[1] > 0
             assert scene.texture.shape[2] == nb_colors
+        else:
+            # faces that are both textured and shaded read the texture
+            assert not np.any(np.logical_and(scene.textured, scene.shaded)), "You need to provide a texture"
 
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
@@ -239,6 +242,9 @@ def renderSceneB(
             assert scene.texture.shape[1] == scene.texture_b.shape[1]
             assert scene.texture.shape[2] == nb_colors
             assert scene.texture_b.shape[2] == nb_colors
+        else:
+            # faces that are both textured and shaded read the texture
+            assert not np.any(np.logical_and(scene.textured, scene.shaded)), "You need to provide a texture"
 
         if antialiase_error:
             assert err_buffer is not None
-- 
2.43.0


From f229c5426f4144ad5aee1bfc07bfb534c9fe6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:25 +0000
Subject: [PATCH 37/73] fix: reject images with too many rows or columns for
 the rasterizer

---
 C++/DifferentiableRenderer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index c117cc6..816a3a2 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2738,6 +2738,9 @@ struct sortcompare
 
 void checkSceneValid(Scene scene, bool has_derivatives)
 {
+	// rows and columns are iterated using short integers
+	if ((scene.height > numeric_limits<short int>::max()) || (scene.width > numeric_limits<short int>::max()))
+		throw "images with more than 32767 rows or columns are not supported";
 	if (scene.faces == NULL)
 		throw "scene.texture == NULL";
 	if (scene.faces_uv == NULL)
-- 
2.43.0


From cd36b19d1691f169362163af434b78fc7b38c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 38/73] fix: gradient of the light when a mesh has vertices
 that do not belong to any face

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 ++
 deodr/triangulated_mesh.py                 | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index bd1da11..08220df 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -45,6 +45,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     def compute_vertex_normals(self, face_normals: torch.Tensor) -> torch.Tensor:
         n = self._vertices_faces_torch.mm(face_normals)
         l2 = (n**2).sum(dim=1)
+        # vertices that do not belong to any face have a null normal
+        l2 = torch.where(torch.tensor(self.degree_v_f == 0), torch.ones_like(l2), l2)
         norm = l2.sqrt()
         return n / norm[:, None]
 
diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index be48d81..a37b179 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -141,6 +141,8 @@ class TriMeshAdjacencies:
         assert face_normals.shape[1] == 3
         n = self._vertices_faces * face_normals
         normals = normalize(n, axis=1)
+        # vertices that do not belong to any face have a null normal
+        normals[self.degree_v_f == 0] = 0
         self.store_backward["compute_vertex_normals"] = n
         return normals
 
-- 
2.43.0


From 4009b386fa8ca9db01207e43c41df3f33383f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 39/73] fix: obj files with tabs or leading spaces, their
 vertices and faces were ignored

---
 deodr/obj.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index b6afc46..4a2eb22 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -26,16 +26,13 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
             line = line[:-2] + fid.readline()
-        if line.startswith("v "):
-            coord = line.split()
-            coord.pop(0)
+        # the keyword can be preceded and followed by any number of spaces or tabs
+        keyword, *fields = line.split() or [""]
+        if keyword == "v":
             node_counter += 1
-            vertices.append(np.array([float(c) for c in coord]))
-
-        elif line.startswith("f "):
-            fields = line.split()
-            fields.pop(0)
+            vertices.append(np.array([float(c) for c in fields]))
 
+        elif keyword == "f":
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-- 
2.43.0


From 7fd53e4fe3770798594a426526fa4ef633ab1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 40/73] fix: vertices and texture coordinates merged by the
 conversion to trimesh when close to each other

---
 deodr/triangulated_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index a37b179..9eaa802 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -480,7 +480,8 @@ class ColoredTriMesh(TriMesh):
         material = trimesh.visual.material.SimpleMaterial(image=texture_pil)
         visual = trimesh.visual.texture.TextureVisuals(uv=uv, material=material)
 
-        return trimesh.Trimesh(vertices=new_vertices, faces=new_faces, visual=visual)
+        # processing would merge distinct vertices that are close to each other
+        return trimesh.Trimesh(vertices=new_vertices, faces=new_faces, visual=visual, process=False)
 
     @staticmethod
     def load(filename: str, process: bool = False) -> "ColoredTriMesh":
-- 
2.43.0


From ab2f77223e6d6e3c66be569544cdeca4b3f6e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 41/73] fix: conversion of trimesh with a texture made of gray
 levels

---
 deodr/triangulated_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 9eaa802..baa1322 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -397,6 +397,8 @@ class ColoredTriMesh(TriMesh):
             # Configure UV coordinates
             if mesh.visual.uv is not None:
                 texture = np.array(mesh.visual.material.image) / 255
+                if texture.ndim == 2:
+                    texture = texture[:, :, None]  # image with gray levels
                 texture.setflags(write=False)
 
                 if texture.shape[2] == 4:
-- 
2.43.0


From 6f71e9055973cde6f463e69fdb0f7380c6f7ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 42/73] fix: round the texture to the nearest level when
 converting to trimesh

---
 deodr/triangulated_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index baa1322..5d5ad5f 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -475,7 +475,7 @@ class ColoredTriMesh(TriMesh):
         new_vertices = v[mask_v].copy()
         uv = vt[mask_vt].copy()
 
-        texture_uint8 = np.clip(self.texture * 255, 0, 255).astype(np.uint8)
+        texture_uint8 = np.round(np.clip(self.texture * 255, 0, 255)).astype(np.uint8)
         if texture_uint8.shape[2] == 1:
             texture_uint8 = texture_uint8.squeeze(axis=2)
         texture_pil = PIL.Image.fromarray(texture_uint8)
-- 
2.43.0


From b83327176397ac3e5b791001fb6f1e322cdd67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 43/73] fix: conversion of trimesh with a palette texture,
 whose indices were used as colours

---
 deodr/triangulated_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 5d5ad5f..ec5d6c6 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -396,7 +396,10 @@ class ColoredTriMesh(TriMesh):
         elif mesh.visual.kind == "texture":
             # Configure UV coordinates
             if mesh.visual.uv is not None:
-                texture = np.array(mesh.visual.material.image) / 255
+                image = mesh.visual.material.image
+                if image.mode == "P":
+                    image = image.convert("RGB")  # the pixels are indices in a palette
+                texture = np.array(image) / 255
                 if texture.ndim == 2:
                     texture = texture[:, :, None]  # image with gray levels
                 texture.setflags(write=False)
-- 
2.43.0


From c5d24132f5945dabb3c5651fc0296f3bf03687fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 44/73] fix: null jacobian by finite differences of functions
 that return a view of their argument

---
 deodr/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/tools.py b/deodr/tools.py
index d2728d4..d0ce856 100644
--- a/deodr/tools.py
+++ b/deodr/tools.py
@@ -63,9 +63,9 @@ def jacobian_finite_differences(
     for d in range(x.size):
         v = nx_flat[d]
         nx_flat[d] = v + epsilon
-        d1 = func(nx)
+        d1 = np.array(func(nx))  # copy, as the value could be a view of nx
         nx_flat[d] = v - epsilon
-        d2 = func(nx)
+        d2 = np.array(func(nx))
         nx_flat[d] = v
         jacobian[:, d] = (d1 - d2).flatten() / (2 * epsilon)
     v02 = func(x)
@@ -84,9 +84,9 @@ def check_jacobian_finite_differences(
     nx_flat = nx.ravel()
     for d in range(x.size):
         nx_flat[d] = x.flat[d] + epsilon
-        d1 = func(nx)
+        d1 = np.array(func(nx))  # copy, as the value could be a view of nx
         nx_flat[d] = x.flat[d] - epsilon
-        d2 = func(nx)
+        d2 = np.array(func(nx))
         nx_flat[d] = x.flat[d]
         jac_cold_fd = (d1 - d2).flatten() / (2 * epsilon)
         max_diff = np.max(np.abs(jac[..., d] - jac_cold_fd))
-- 
2.43.0


From 9837f43d3835e3453ff2296d5f768257bc2a36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 45/73] fix: pytorch rigid energy of vertices that require a
 gradient

---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..c43cf47 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From c5d67a788f2a1d0312d0f7abb394931a34207c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 46/73] fix: colors given to the pytorch 2D rendering function
 were ignored, and ij overwritten by later renderings

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 12d3f80..9d62446 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -49,11 +49,12 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        # shallow copy as scene.scene_2d is replaced if another image is rendered before calling backward
-        ctx.scene = copy.copy(scene)
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
-        scene.colors = colors.detach().numpy()
+        scene.scene_2d.colors = colors.detach().numpy()
+        # shallow copies as scene.scene_2d is modified if another image is rendered before calling backward
+        ctx.scene = copy.copy(scene)
+        ctx.scene.scene_2d = copy.copy(scene.scene_2d)
         differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, scene.sigma, image, z_buffer)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
-- 
2.43.0


From 3ab09a066527f0415c510471036d88fe1f0c437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 47/73] fix: pytorch scenes returned the depths of the vertices
 instead of the z buffer

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 9d62446..79f864f 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -61,6 +61,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         # making a copy to keep the antializaed image for visualization ,
         # could be optional
         ctx.z_buffer = z_buffer
+        scene.z_buffer = z_buffer.copy()
         return torch.as_tensor(image)
 
     @staticmethod
@@ -108,7 +109,5 @@ class Scene3DPytorch(Scene3D):
 
     def _render_2d(self) -> Tuple[torch.Tensor, torch.Tensor]:
         self.depths = self.scene_2d.depths.detach()
-        return (
-            TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self),
-            self.depths,
-        )
+        image = TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self)
+        return image, torch.as_tensor(self.z_buffer)
-- 
2.43.0


From fa96e9e33d2a3677a13c086348af39e64780bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 48/73] fix: normalize the quaternion of each frame of the
 multi frame fitter, not all of them together

---
 deodr/mesh_fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 230eb6f..2f2dec2 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -602,7 +602,9 @@ class MeshRGBFitterWithPoseMultiFrame:
         )
         self.speed_quaternion = (1 - self.damping) * (self.speed_quaternion * inertia + (1 - inertia) * step_quaternion)
         self.transform_quaternion = self.transform_quaternion + self.speed_quaternion
-        self.transform_quaternion = self.transform_quaternion / np.linalg.norm(self.transform_quaternion)
+        self.transform_quaternion = self.transform_quaternion / np.linalg.norm(
+            self.transform_quaternion, axis=1, keepdims=True
+        )
         # update translation
         step_translation = mult_and_clamp(
             -self.transform_translation_b,
-- 
2.43.0


From eea237ae4c95c1136b7280c17fef7b2c2002cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 49/73] fix: the iteration number that ends the centering of
 the vertices gradient was kept by the reset of the numpy fitters

---
 deodr/mesh_fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 2f2dec2..fdbb912 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -62,6 +62,7 @@ class MeshDepthFitter:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices_init.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
@@ -240,6 +241,7 @@ class MeshRGBFitterWithPose:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
@@ -435,6 +437,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
-- 
2.43.0


From 8c5c1cb9879ff762f3aee76bf76f8f0dd145dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 50/73] fix: numpy depth fitter with another limit of the steps
 of the vertices than the pytorch and tensorflow depth fitters

---
 deodr/mesh_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index fdbb912..e221060 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -34,7 +34,7 @@ class MeshDepthFitter:
         self.inertia = inertia
         self.damping = damping
         self.step_factor_vertices = 0.0005
-        self.step_max_vertices = 1
+        self.step_max_vertices = 0.5
         self.step_factor_quaternion = 0.00006
         self.step_max_quaternion = 0.1
         self.step_factor_translation = 0.00005
-- 
2.43.0


From aa18db3060c8eb5588316a1029ec955582e75de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 51/73] fix: camera of the pytorch depth fitter shifted by the
 initial translation, contrary to the numpy and tensorflow ones

---
 deodr/pytorch/mesh_fitter_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index 8fa0686..b20d26f 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -202,7 +202,7 @@ class MeshDepthFitter:
             vertices=vertices,
             colors=np.zeros((vertices.shape[0], 0)),
         )  # we do a copy to avoid negative stride not support by pytorch
-        object_center = vertices.mean(axis=0) + translation_init
+        object_center = vertices.mean(axis=0)
         object_radius = np.max(np.std(vertices, axis=0))
         self.camera_center = object_center + np.array([-0.5, 0, 5]) * object_radius
 
-- 
2.43.0


From 6cbddf15b9611e52adca10cc45af3ab309878ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 52/73] fix: the pytorch depth fitter with LBFGS turned the
 faces inside out

---
 deodr/pytorch/mesh_fitter_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index b20d26f..2e859f5 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -44,7 +44,7 @@ class MeshDepthFitterEnergy(torch.nn.Module):
     ):
         super(MeshDepthFitterEnergy, self).__init__()
         self.mesh = ColoredTriMesh(
-            faces=faces[:, ::-1].copy(),
+            faces=faces.copy(),
             vertices=vertices,
             colors=np.zeros((vertices.shape[0], 0)),
         )  # we do a copy to avoid negative stride not supported by pytorch
-- 
2.43.0


From 698180186e421e0c0c57670d62d6b2ab9cb2b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 53/73] fix: learning rate given to the pytorch depth fitter
 with LBFGS was ignored

---
 deodr/pytorch/mesh_fitter_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index 2e859f5..5624cc6 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -135,7 +135,7 @@ class MeshDepthFitterPytorchOptim:
     ):
         self.energy = MeshDepthFitterEnergy(vertices, faces, euler_init, translation_init, cregu)
         params = self.energy.parameters()
-        self.optimizer = torch.optim.LBFGS(params, lr=0.8, max_iter=1)
+        self.optimizer = torch.optim.LBFGS(params, lr=lr, max_iter=1)
         # self.optimizer = torch.optim.SGD(params, lr=0.000005, momentum=0.1,
         # dampening=0.1        )
         # self.optimizer =torch.optim.RMSprop(params, lr=1e-3, alpha=0.99,  eps=1e-8,
-- 
2.43.0


From 82089a76087588b27441ef26c2f722040f112fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 54/73] fix: moderngl renderer drew the back faces that deodr
 culls

---
 deodr/opengl/moderngl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index e68fa0c..82c5866 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -84,6 +84,8 @@ class OffscreenRenderer:
         assert mesh.uv is not None
         assert mesh.texture is not None
         self.set_texture(mesh.texture)
+        # deodr culls the back faces, the rows of the image are rendered from bottom to top
+        self.front_face = "ccw" if mesh.clockwise else "cw"
         # create triangles soup
 
         vertices = mesh.vertices[mesh.faces].reshape(-1, 3)
@@ -177,7 +179,8 @@ class OffscreenRenderer:
         assert self.fbo is not None
         # Rendering the RGB image
         self.fbo.use()
-        ctx.enable(moderngl.DEPTH_TEST)
+        ctx.enable(moderngl.DEPTH_TEST | moderngl.CULL_FACE)
+        ctx.front_face = self.front_face
         ctx.clear(self.bg_color[0], self.bg_color[1], self.bg_color[2])
         self.texture.use()
         self.vao.render()
-- 
2.43.0


From e4caca6c9d6f3cc07a9cd8a97852f71fb92d682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 55/73] fix: moderngl renderer repeated the texture beyond its
 borders instead of clamping

---
 deodr/opengl/moderngl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 82c5866..aa3f77a 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -127,6 +127,9 @@ class OffscreenRenderer:
                 texture.shape[2],
                 (texture * 255).astype(np.uint8).tobytes(),
             )
+            # deodr extends the texture with its border
+            self.texture.repeat_x = False
+            self.texture.repeat_y = False
         # texture.build_mipmaps()
 
     def set_camera(self, camera: Camera) -> None:
-- 
2.43.0


From 15a4e6864b5899a8f85aa33f303197f4c1e53b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 56/73] fix: moderngl renderer kept a texture when another one
 got the identity of the previous one

---
 deodr/opengl/moderngl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index aa3f77a..5af2112 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -4,6 +4,8 @@
 This is used to have a reference implementation using OpenGL shaders that produce identical images to deodr
 """
 
+from typing import Optional
+
 import moderngl
 import numpy as np
 from pyrr import Matrix44
@@ -63,7 +65,8 @@ class OffscreenRenderer:
         )
         self.fbo = None
         self.texture = None
-        self.texture_id: int = 0
+        # kept alive, such that no other texture gets its identity
+        self.texture_array: Optional[np.ndarray] = None
 
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
@@ -119,9 +122,8 @@ class OffscreenRenderer:
         # Texture
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
-        texture_id = id(texture)
-        if self.texture is None or self.texture_id != texture_id:
-            self.texture_id = id(texture)
+        if self.texture is None or self.texture_array is not texture:
+            self.texture_array = texture
             self.texture = self.ctx.texture(
                 (texture.shape[1], texture.shape[0]),
                 texture.shape[2],
-- 
2.43.0


From 23bf751e647321fc9a59efdf57825fb6c28f8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 57/73] fix: moderngl renderer clipped the furthest points of
 the mesh, and the meshes parallel to the image

---
 deodr/opengl/moderngl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 5af2112..3ed3a0a 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -167,7 +167,8 @@ class OffscreenRenderer:
 
     def render(self, camera: Camera) -> np.ndarray:
         ctx = self.ctx
-        self.zfar = camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
+        # margin such that the furthest points are not clipped
+        self.zfar = 1.01 * camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
         self.znear = 1e-3 * self.zfar
         # Setting up camera
         self.set_camera(camera)
-- 
2.43.0


From 5ed56f8ee84099352b00bebf0a92f39f9de3866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 58/73] fix: wrong texture coordinates in pyrender for textures
 that are not square, and half a texel shift

---
 deodr/opengl/pyrender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index b9a1cef..d23f2e4 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -71,8 +71,8 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     uv = deodr_mesh.uv[mask_vt]
     pyrender_uv = np.column_stack(
         (
-            (uv[:, 0]) / deodr_mesh.texture.shape[0],
-            (1 - uv[:, 1] / deodr_mesh.texture.shape[1]),
+            (uv[:, 0] + 0.5) / deodr_mesh.texture.shape[1],
+            1 - (uv[:, 1] + 0.5) / deodr_mesh.texture.shape[0],
         )
     )
 
-- 
2.43.0


From b353b08f998b639ac85e738f88774b9ba417c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 59/73] fix: min_rotation returned the identity for opposite
 vectors: lights towards +z were reversed in pyrender

---
 deodr/opengl/pyrender.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index d23f2e4..8f4f660 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -33,6 +33,11 @@ def min_rotation(vec1: np.ndarray, vec2: np.ndarray) -> np.ndarray:
     v = np.cross(a, b)
     c = np.dot(a, b)
     s = np.linalg.norm(v)
+    if c < 0 and s < 1e-6:
+        # opposite vectors: half turn around any axis orthogonal to them
+        axis = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+        axis /= np.linalg.norm(axis)
+        return 2 * np.outer(axis, axis) - np.eye(3)
     kmat = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
     d = (1 - c) / (s**2) if s > 1e-6 else 0.5
     return np.eye(3) + kmat + kmat.dot(kmat) * d
-- 
2.43.0


From d76ef7bfe27abd28401d3566135664df29421e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 60/73] fix: half a pixel shift in pyrender for scenes with
 integer pixel centers

---
 deodr/opengl/pyrender.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 8f4f660..9d1f002 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -129,11 +129,13 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
         raise (BaseException("cameras with distortion not handled yet with pyrender"))
 
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
+    # pixel centers have half integer coordinates in opengl
+    pixel_offset = 0.5 if deodr_scene.integer_pixel_centers else 0
     cam = pyrender.IntrinsicsCamera(
         fx=camera.intrinsic[0, 0],
         fy=camera.intrinsic[1, 1],
-        cx=camera.intrinsic[0, 2],
-        cy=camera.intrinsic[1, 2],
+        cx=camera.intrinsic[0, 2] + pixel_offset,
+        cy=camera.intrinsic[1, 2] + pixel_offset,
     )
 
     # convert to pyrender directional light parameterization
-- 
2.43.0


From 2bdf9c8a7404992931efb9191164119505e81fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 61/73] fix: the parts of the mesh closer than 0.05 or further
 than 100 were clipped in pyrender

---
 deodr/opengl/pyrender.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 9d1f002..798ae7d 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -129,6 +129,10 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
         raise (BaseException("cameras with distortion not handled yet with pyrender"))
 
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
+    # clipping planes around the mesh, with a margin such that the furthest points are not clipped
+    zfar = 1.01 * camera.world_to_camera(deodr_scene.mesh.vertices)[:, 2].max()
+    znear = 1e-3 * zfar
+
     # pixel centers have half integer coordinates in opengl
     pixel_offset = 0.5 if deodr_scene.integer_pixel_centers else 0
     cam = pyrender.IntrinsicsCamera(
@@ -136,6 +140,8 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
         fy=camera.intrinsic[1, 1],
         cx=camera.intrinsic[0, 2] + pixel_offset,
         cy=camera.intrinsic[1, 2] + pixel_offset,
+        znear=znear,
+        zfar=zfar,
     )
 
     # convert to pyrender directional light parameterization
-- 
2.43.0


From 38cceb02f698192e1aa85e0e1a284c7a7da08837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 62/73] fix: the back faces of clockwise meshes were drawn in
 pyrender instead of the front faces

---
 deodr/opengl/pyrender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 798ae7d..1088030 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -73,6 +73,9 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     vertices = deodr_mesh.vertices[mask_v]
     deodr_mesh.compute_vertex_normals()
     vertex_normals = deodr_mesh.vertex_normals[mask_v]
+    if deodr_mesh.clockwise:
+        # front faces are counterclockwise in opengl
+        faces = faces[:, ::-1]
     uv = deodr_mesh.uv[mask_vt]
     pyrender_uv = np.column_stack(
         (
-- 
2.43.0


From fdd3e85274bbe43646f78658c18cc9591bb992bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 63/73] fix: texture coordinates beyond the borders repeated
 the texture in pyrender instead of clamping it

---
 deodr/opengl/pyrender.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 1088030..cd560eb 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -88,7 +88,14 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     poses = None
     color_0 = None
     if material is None:
-        base_color_texture = pyrender.texture.Texture(source=deodr_mesh.texture, source_channels="RGB")
+        base_color_texture = pyrender.texture.Texture(
+            source=deodr_mesh.texture,
+            source_channels="RGB",
+            # deodr extends the texture with its border
+            sampler=pyrender.Sampler(
+                wrapS=pyrender.constants.GLTF.CLAMP_TO_EDGE, wrapT=pyrender.constants.GLTF.CLAMP_TO_EDGE
+            ),
+        )
         material = pyrender.MetallicRoughnessMaterial(
             alphaMode="BLEND",
             baseColorFactor=[1, 1, 1, 1.0],
-- 
2.43.0


From 904bb9c0fa080fbda6fb5fd5405bc76fcb079fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 64/73] fix: the skew of the camera was silently ignored with
 pyrender

---
 deodr/opengl/pyrender.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index cd560eb..a4e4388 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -137,6 +137,8 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
 
     if camera.distortion is not None:
         raise (BaseException("cameras with distortion not handled yet with pyrender"))
+    if camera.intrinsic[0, 1] != 0:
+        raise (BaseException("cameras with skew are not handled by pyrender"))
 
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
     # clipping planes around the mesh, with a margin such that the furthest points are not clipped
-- 
2.43.0


From 27273d505fd00e54d7f799a1381341e61aff01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 65/73] fix: textures whose width is not a multiple of four
 were sheared in pyrender

---
 deodr/opengl/pyrender.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index a4e4388..118d479 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -90,7 +90,8 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     if material is None:
         base_color_texture = pyrender.texture.Texture(
             source=deodr_mesh.texture,
-            source_channels="RGB",
+            # four channels, as pyrender shears the textures whose rows are not a multiple of four bytes
+            source_channels="RGBA",
             # deodr extends the texture with its border
             sampler=pyrender.Sampler(
                 wrapS=pyrender.constants.GLTF.CLAMP_TO_EDGE, wrapT=pyrender.constants.GLTF.CLAMP_TO_EDGE
-- 
2.43.0


From 242f5c3fc3c40a862a9c447bee4a4edd5f1adf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 66/73] fix: weigh the gradient by the mask like the error in
 render_compare_and_backward

The error is the sum of the squares of the masked differences, and its
gradient only was the one returned for masks with values 0 and 1.
---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index ebd3cec..67a6f19 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -755,7 +755,7 @@ class Scene2D(Scene2DBase):
             diff_image = (image - obs) * mask[:, :, None]
             err_buffer = (diff_image) ** 2
             err = float(np.sum(err_buffer))
-            image_b = 2 * diff_image
+            image_b = 2 * diff_image * mask[:, :, None]
             self.render_backward(image_b, make_copies=make_copies)
 
         return image, z_buffer, err_buffer, err
-- 
2.43.0


From 26f6e2d4a1872ccb6df4392efd8229007cba8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 67/73] fix: accept masks of any type with antialias_error=True

Masks of booleans, of integers or that are not contiguous were only accepted
with antialias_error=False.
---
 deodr/differentiable_renderer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 67a6f19..0e0ee97 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1,6 +1,5 @@
 """Module to do differentiable rendering of 2D and 3D scenes."""
 
-import copy
 from dataclasses import dataclass
 from typing import Any, Dict, Iterable, List, Optional, overload, Tuple, Union
 import warnings
@@ -749,7 +748,7 @@ class Scene2D(Scene2DBase):
         if antialiase_error:
             err_buffer = err_buffer * mask
             err = float(np.sum(err_buffer))
-            err_buffer_b = copy.copy(mask)
+            err_buffer_b = np.array(mask, dtype=np.float64, order="C")
             self.render_error_backward(err_buffer_b, make_copies=make_copies)
         else:
             diff_image = (image - obs) * mask[:, :, None]
-- 
2.43.0


From afb181cc71a4d63eb789cc86fc509fc9d654bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 68/73] fix: render and differentiate images with more than
 32767 channels (loops over channels with short integers)

---
 C++/DifferentiableRenderer.h | 48 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 816a3a2..bd5681c 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -815,7 +815,7 @@ void rasterize_triangle_interpolated(double Vxy[][2], double Zvertex[3], T *Aver
 		double inv_Zvertex[3];
 		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
 
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -827,7 +827,7 @@ void rasterize_triangle_interpolated(double Vxy[][2], double Zvertex[3], T *Aver
 	}
 	else
 	{
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -869,7 +869,7 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	// create matrices that map image coordinates to attributes A and depth z
 
 	xy1_to_A = new double[3 * sizeA];
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			xy1_to_A[3 * i + j] = 0;
@@ -880,7 +880,7 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	mul_vect_matrix3x3(xy1_to_Z, Zvertex, xy1_to_bary);
 	double *xy1_to_A_B;
 	xy1_to_A_B = new double[3 * sizeA];
-	for (short int i = 0; i < 3 * sizeA; i++)
+	for (int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
 	for (int k = 0; k < 2; k++)
@@ -889,7 +889,7 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	double xy1_to_bary_B[9] = {0};
 	//for(short int i=0;i<9;i++) xy1_to_bary_B[i]=0
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 
@@ -999,7 +999,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 				if (Z < z_buffer[indx])
 				{
 					z_buffer[indx] = Z;
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 						image[sizeA * indx + k] = (A0y[k] + xy1_to_A[3 * k] * x) * Z;
 				}
 				indx++;
@@ -1012,7 +1012,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 				if (Z < z_buffer[indx])
 				{
 					z_buffer[indx] = Z;
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 						image[sizeA * indx + k] = A0y[k] + xy1_to_A[3 * k] * x;
 				}
 				indx++;
@@ -1057,7 +1057,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 		t[2] = 1;
 
 		//mul_matrix3x3_vect(A0y,xy1_to_A,t);
-		for (short int k = 0; k < sizeA; k++)
+		for (int k = 0; k < sizeA; k++)
 			A0y_B[k] = 0;
 
 		Z0y = dot_prod(xy1_to_Z, t);
@@ -1074,7 +1074,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 			Z = Z0y + xy1_to_Z[0] * x;
 			if (Z == z_buffer[indx])
 			{ //z_buffer[indx]=Z;
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 					//image[sizeA*indx+k]=A0y[k]+xy1_to_A[3*k]*x;
 					A0y_B[k] += image_B[sizeA * indx + k];
@@ -1616,7 +1616,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -1628,7 +1628,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 	{
 		mul_matrix(1, 2, 3, xy1_to_Z, Zvertex, xy1_to_bary);
 		xy1_to_A = new double[3 * sizeA];
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -1666,7 +1666,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 				{
 					double T = T0y + T_inc * x;
 
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 					{
 						image[sizeA * indx + k] *= T;
 						double A = (A0y[k] + xy1_to_A[3 * k] * x) * Z;
@@ -1685,7 +1685,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 				{
 					double T = T0y + T_inc * x;
 
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 					{
 						image[sizeA * indx + k] *= T;
 						double A = (A0y[k] + xy1_to_A[3 * k] * x);
@@ -1733,10 +1733,10 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 	xy1_to_A = new double[3 * sizeA];
 	double *xy1_to_A_B;
 	xy1_to_A_B = new double[3 * sizeA];
-	for (short int i = 0; i < 3 * sizeA; i++)
+	for (int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			xy1_to_A[3 * i + j] = 0;
@@ -1753,7 +1753,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 		t[1] = y;
 		t[2] = 1;
 		mul_matrixNx3_vect(sizeA, A0y, xy1_to_A, t);
-		for (short int k = 0; k < sizeA; k++)
+		for (int k = 0; k < sizeA; k++)
 			A0y_B[k] = 0;
 
 		T0y = dot_prod(xy1_to_transp, t);
@@ -1775,7 +1775,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 				double T = T0y + T_inc * x;
 				double T_B = 0;
 
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 
 					double A = A0y[k] + xy1_to_A[3 * k] * x;
@@ -1811,7 +1811,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 			xy1_to_transp_B[k] += T0y_B * t[k];
 	}
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			for (short int k = 0; k < 2; k++)
@@ -1950,7 +1950,7 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 				}
 				bilinear_sample(A, Texture, Texture_size, UV, sizeA);
 
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 					image[sizeA * indx + k] *= T;
 					image[sizeA * indx + k] += (1 - T) * A[k] * L;
@@ -2059,9 +2059,9 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 
 				bilinear_sample(A, Texture, Texture_size, UV, sizeA);
 
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 					A_B[k] = 0;
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 					//image[sizeA*indx+k]*= T;
 					//image[sizeA*indx+k]+= (1-T)*A[k]*L;
@@ -2573,7 +2573,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 
 	mul_matrix(1, 2, 3, xy1_to_Z, Zvertex, xy1_to_bary);
 
-	for (short int i = 0; i < 3 * sizeA; i++)
+	for (int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
 	for (int i = 0; i < sizeA; i++)
@@ -2597,7 +2597,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 		t[1] = y;
 		t[2] = 1;
 		mul_matrixNx3_vect(sizeA, A0y, xy1_to_A, t);
-		for (short int k = 0; k < sizeA; k++)
+		for (int k = 0; k < sizeA; k++)
 			A0y_B[k] = 0;
 		T0y = dot_prod(xy1_to_transp, t);
 		Z0y = dot_prod(xy1_to_Z, t);
@@ -2661,7 +2661,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 			xy1_to_transp_B[k] += T0y_B * t[k];
 	}
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			for (short int k = 0; k < 2; k++)
-- 
2.43.0


From 3aaad269d8ab26d5a985760be3fd38e84fee5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 69/73] fix: finite differences at integer or single precision
 points

---
 deodr/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/tools.py b/deodr/tools.py
index d0ce856..97bffbe 100644
--- a/deodr/tools.py
+++ b/deodr/tools.py
@@ -56,6 +56,7 @@ def cross_backward(u: np.ndarray, v: np.ndarray, c_b: np.ndarray) -> Tuple[np.nd
 def jacobian_finite_differences(
     func: Callable[[np.ndarray], np.ndarray], x: np.ndarray, epsilon: float = 1e-6
 ) -> np.ndarray:
+    x = np.array(x, dtype=np.float64)  # the steps are not representable in other types
     v0 = func(x)
     nx = x.copy()
     jacobian = np.zeros((v0.size, x.size))
@@ -80,6 +81,7 @@ def check_jacobian_finite_differences(
     epsilon: float = 1e-7,
     tol: float = 1e-4,
 ) -> None:
+    x = np.array(x, dtype=np.float64)  # the steps are not representable in other types
     nx = x.copy()
     nx_flat = nx.ravel()
     for d in range(x.size):
-- 
2.43.0


From 13a5b0144ecf245145593f4f4800ff12ecada39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 70/73] fix: light given as a tuple was rounded to single
 precision in pytorch scenes

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 79f864f..c3d1f23 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -95,7 +95,7 @@ class Scene3DPytorch(Scene3D):
 
     def set_light(self, light_directional: torch.Tensor, light_ambient: torch.Tensor) -> None:
         if not (isinstance(light_directional, torch.Tensor)):
-            light_directional = torch.tensor(light_directional)
+            light_directional = torch.tensor(light_directional, dtype=torch.float64)
         self.light_directional = light_directional
         self.light_ambient_pytorch = light_ambient
 
-- 
2.43.0


From cf2dbf67547c4460356c215c4c914fe81daed13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:12 +0000
Subject: [PATCH 71/73] fix: several moderngl renderers drew in the context of
 the last one

---
 deodr/opengl/moderngl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 3ed3a0a..26db22d 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -68,6 +68,10 @@ class OffscreenRenderer:
         # kept alive, such that no other texture gets its identity
         self.texture_array: Optional[np.ndarray] = None
 
+    def make_current(self) -> None:
+        """Make the context current, as another one may have been created or used since the last call."""
+        self.ctx.__enter__()
+
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
         assert deodr_scene.light_ambient is not None
@@ -79,11 +83,13 @@ class OffscreenRenderer:
         self.integer_pixel_centers = deodr_scene.integer_pixel_centers
 
     def set_light(self, light_directional: np.ndarray, light_ambient: float) -> None:
+        self.make_current()
         assert light_directional.shape == (3,)
         self.shader_program["light_directional"].value = tuple(light_directional)  # type :ignore
         self.shader_program["light_ambient"].value = light_ambient
 
     def set_mesh(self, mesh: ColoredTriMesh) -> None:
+        self.make_current()
         assert mesh.uv is not None
         assert mesh.texture is not None
         self.set_texture(mesh.texture)
@@ -119,6 +125,7 @@ class OffscreenRenderer:
         )
 
     def set_texture(self, texture: np.ndarray) -> None:
+        self.make_current()
         # Texture
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
@@ -135,6 +142,7 @@ class OffscreenRenderer:
         # texture.build_mipmaps()
 
     def set_camera(self, camera: Camera) -> None:
+        self.make_current()
         extrinsic = np.vstack((camera.extrinsic, [0, 0, 0, 1]))
 
         intrinsic = Matrix44(
@@ -166,6 +174,7 @@ class OffscreenRenderer:
         self.shader_program["p2"].value = p2
 
     def render(self, camera: Camera) -> np.ndarray:
+        self.make_current()
         ctx = self.ctx
         # margin such that the furthest points are not clipped
         self.zfar = 1.01 * camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
-- 
2.43.0


From 7e2495b2a36f052b54959f2113e752a98dfb339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 72/73] fix: checking the gradients displaced the vertices of
 the multi frame fitter

---
 deodr/mesh_fitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index e221060..fbeea3e 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -566,6 +566,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         ) = self.rigid_energy.evaluate(self.vertices)
 
         if check_gradient:
+            vertices = self.vertices
 
             def func(x: np.ndarray) -> np.ndarray:
                 return np.array(self.rigid_energy.evaluate(x)[0])
@@ -576,7 +577,11 @@ class MeshRGBFitterWithPoseMultiFrame:
                 return np.array(self.energy_data(x)[0])
 
             grad_data = self._vertices_b.copy()
-            check_jacobian_finite_differences(grad_data.flatten(), func, self.vertices)
+            try:
+                check_jacobian_finite_differences(grad_data.flatten(), func, self.vertices)
+            finally:
+                # back to the vertices and gradients of this step
+                energy_data, image, diff_image = self.energy_data(vertices)
 
         energy = energy_data + energy_rigid
         print(f"iter {self.iter} Energy={energy} : EData={energy_data} E_rigid={energy_rigid}")
-- 
2.43.0


From 8d8453f06262bd23cd17f12bfb70c0b39d997052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 73/73] fix: MeshLab cameras with non square pixels were
 exported with square pixels

---
 deodr/meshlab_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index 235b7f0..bd60c85 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -51,7 +51,8 @@ def export_meshlab(
         )
 
         vcg_camera.setAttribute("CenterPx", " ".join([str(v) for v in camera.intrinsic[0:2, 2]]))
-        vcg_camera.setAttribute("PixelSizeMm", "1 1")
+        # the focal length is given in pixels along the rows, the height of the pixels gives it along the columns
+        vcg_camera.setAttribute("PixelSizeMm", f"1 {camera.intrinsic[0, 0] / camera.intrinsic[1, 1]}")
         vcg_camera.setAttribute("FocalMm", str(camera.intrinsic[0, 0]))
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
-- 
2.43.0

