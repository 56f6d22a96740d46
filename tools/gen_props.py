#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after an edit; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": ["src/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Cropping, flipping, replacing and overlaying place every pixel exactly",
  "crop, flip_horizontal, flip_vertical, replace and overlay put each pixel of their inputs exactly where documented: a crop is the sub-rectangle, a flip mirrors coordinates, replace (overlay) writes (alpha-blends) every top pixel that lands inside the bottom image at the given offset and leaves every other pixel of the bottom image alone, for any offset including partial and complete overhang. crop panics exactly when the rectangle exceeds the image. The in-place and parallel variants give the same image, and sequences of these operations compose.",
  ["inputs", "histories"], "every image size (including 0 and 1 wide/high), every rectangle, every offset, every sequence of in-place operations",
  "Unit tests compare one 6x6 image per function (replace and overlay only at hand-picked offsets); edge rows, overhang and alpha are not sampled.",
  ["compose.rs"], [("crop / crop_parallel", "compose.rs:crop"), ("replace_mut / overlay_mut loops", "compose.rs:replace_mut")])

p("C02", "Right-angle rotations and translations are exact pixel permutations",
  "rotate90, rotate180, rotate270 move pixel (x, y) of a w-by-h image to (h-1-y, x), (w-1-x, h-1-y), (y, w-1-x) respectively, lossless for every size and channel count, and rotate180_mut agrees with rotate180. translate(image, (tx, ty)) has the input's size and its pixel (x, y) is the input pixel at (x-tx, y-ty) with coordinates clamped to the image, for every offset including ones larger than the image.",
  ["inputs", "histories"], "all sizes, channel counts, offsets; all compositions (four quarter turns are the identity)",
  "Tests use one 3x2 image per function and translations by one pixel.",
  ["geometric_transformations.rs"], [("rotate90/180/270", "geometric_transformations.rs:rotate90"), ("translate", "geometric_transformations.rs:translate")])

p("C03", "Warping samples the pre-image of each output pixel under the projection",
  "For warp, warp_into, warp_with, rotate and rotate_about_center, output pixel (x, y) is the input sampled at the inverse image of (x, y) under the mapping, or the default pixel when the sample lies outside the input; with nearest-neighbour interpolation the sample is the pixel closest to it, and with bilinear (bicubic) interpolation it is the weighted mean of the 4 (the 16-point bicubic of the) surrounding pixels, defined where all of these lie inside the input. The output has the size of the input (of the output argument for warp_into). Projection composition, inversion and from_control_points satisfy their algebra: and_then applies left then right, invert undoes, and from_control_points maps each source point to its target or returns None.",
  ["inputs", "histories"], "all projections whose coefficients are exactly representable (integer and dyadic affine maps; projective maps, exactly with nearest and within a tolerance with bilinear interpolation), all image sizes, all three interpolations, 8- and 16-bit and real samples",
  "Tests sample a handful of translations, a few rotations and one projective map.",
  ["geometric_transformations.rs"], [("warp_inner / interpolate_*", "geometric_transformations.rs:warp_inner"), ("Projection", "geometric_transformations.rs:Projection")])

p("C04", "Kernel filters compute the clamped correlation with edge replication",
  "filter, filter_clamped, horizontal_filter, vertical_filter, separable_filter, laplacian_filter and sharpen3x3 return, for each pixel and channel, the correlation of the kernel (centred at (width/2, height/2)) with the image extended by replicating its border pixels, clamped to the output type. This holds for any kernel shape (odd, even, larger than the image) and any non-empty image, and an empty image gives an empty image. The parallel variants return the identical image.",
  ["inputs", "schedules"], "all images, all integer kernels of any shape, all subpixel types, all thread schedules",
  "Tests use a few 3x3 kernels on small images; even kernels, 1-pixel-wide images and saturation at each border are not crossed.",
  ["filter/mod.rs", "filter/sharpen.rs", "kernel.rs", "definitions.rs"], [("filter", "filter/mod.rs:filter"), ("horizontal_filter/vertical_filter border handling", "filter/mod.rs:horizontal_filter")])

p("C05", "box_filter is the floor of the mean over the replicated window",
  "box_filter(image, rx, ry) returns at each pixel the integer mean (sum divided by (2rx+1)(2ry+1), rounded towards zero, taken first along the row and then along the column) of the window of radius rx, ry around it, with the image extended by replicating its border. It holds for radii larger than the image.",
  ["inputs"], "every image and every pair of radii", "Tests compare one 3x3 example.",
  ["filter/box_filter.rs", "integral_image.rs"], [("box_filter", "filter/box_filter.rs:box_filter")])

p("C06", "median_filter returns the exact window median in every channel",
  "median_filter(image, rx, ry) returns at each pixel and channel the median (the middle element of the sorted (2rx+1)(2ry+1) samples) of the window with border pixels replicated, regardless of how the window histogram is maintained while sliding.",
  ["inputs", "histories"], "every image (including 1xN and radii exceeding the image), every radius pair, every channel count",
  "Tests cover a few 3x3-ish images and a proptest against a similar reference only on larger radii.",
  ["filter/median.rs"], [("sliding histogram: HistSet incr/decr", "filter/median.rs:median_filter")])

p("C07", "Gradients apply the documented Sobel, Scharr, Prewitt and Roberts kernels",
  "horizontal/vertical sobel, scharr and prewitt, and gradients_grayscale with any kernel pair (including Roberts), return the signed 16-bit correlation with the documented kernel under edge replication; sobel_gradients, prewitt_gradients and gradients return the magnitude sqrt(h^2+v^2) rounded down, channel by channel, after the given channel map.",
  ["inputs"], "every image and pixel type", "Tests use one 3x3 image per operator.",
  ["gradients.rs", "kernel.rs"], [("kernels", "kernel.rs"), ("gradients", "gradients.rs:gradients")])

p("C08", "Integral images and running sums are exact prefix sums",
  "integral_image and integral_squared_image are (w+1)x(h+1) with entry (x, y) the sum of (squared) samples strictly above and left of it per channel; sum_image_pixels over inclusive corners gives the exact rectangle sum, and variance the population variance of the rectangle. row_running_sum and column_running_sum fill the buffer with prefix sums of the row or column extended by replicated padding.",
  ["inputs"], "every image, every rectangle, every padding", "Tests compare a few small matrices and random areas of one size.",
  ["integral_image.rs"], [("integral_image_impl", "integral_image.rs"), ("row_running_sum", "integral_image.rs:row_running_sum")])

p("C09", "Histograms, percentiles, extrema and RMSE are exact statistics of the samples",
  "For any non-empty image, histogram counts every sample of every channel once; cumulative_histogram is its prefix sum; percentile(p) is the least value v with at least p percent of samples <= v; min_max returns each channel's least and greatest value; root_mean_squared_error is the square root of the mean squared channel difference and peak_signal_to_noise_ratio is infinite iff the images are equal. find_extremes returns the extreme values and their first locations in row-major order.",
  ["inputs"], "every non-empty image and percentile", "Tests use a handful of images.",
  ["stats.rs", "template_matching.rs"], [("histogram", "stats.rs:histogram"), ("percentile", "stats.rs:percentile"), ("find_extremes", "template_matching.rs:find_extremes")])

p("C10", "Thresholding and contrast stretching map every intensity by the documented rule",
  "threshold maps a sample s against t by type: Binary s>t ? 255 : 0, BinaryInverted s>t ? 0 : 255, Truncate min(s,t), ToZero s>t ? 0 : s and ToZeroInverted s>t ? s : 0 (the behaviour of the crate's examples). stretch_contrast maps every colour sample s<=in_lo to out_lo, s>=in_hi to out_hi and interpolates in between as out_lo + (s-in_lo)*(out_hi-out_lo)/(in_hi-in_lo) with truncating integer division, and panics iff in_lo>=in_hi or out_lo>out_hi. Neither touches an alpha channel. In-place variants agree.",
  ["inputs"], "all 256x256 (sample, threshold) pairs, all contrast bounds, all pixel types", "Tests use one image per type and a few bounds.",
  ["contrast.rs"], [("threshold_mut", "contrast.rs:threshold_mut"), ("stretch_contrast_mut", "contrast.rs:stretch_contrast_mut")])

p("C11", "Histogram equalization and matching are the documented monotone remaps",
  "equalize_histogram sends intensity i to 255 * C(i) / N rounded down, with C the cumulative count and N the number of pixels; match_histogram sends i to the target intensity whose cumulative share of the target image is closest to i's share of the input. Both are monotone in i, and the in-place forms agree.",
  ["inputs"], "every image pair with exactly representable cumulative shares", "Tests check one ramp and a handful of lookup tables.",
  ["contrast.rs", "stats.rs"], [("histogram_lut", "contrast.rs:histogram_lut"), ("equalize_histogram_mut", "contrast.rs:equalize_histogram_mut")])

p("C12", "Automatic and adaptive thresholds optimise their documented criterion",
  "adaptive_threshold turns a pixel white iff its value is at least the mean (rounded down) of the block of the given radius around it, clipped to the image, minus delta, and black otherwise. otsu_level returns a level whose two classes (<= level, > level) maximise the between-class variance of the image.",
  ["inputs"], "every image, block radius and delta", "Tests check constants, one two-valued image and a few random images only for not panicking.",
  ["contrast.rs"], [("adaptive_threshold", "contrast.rs:adaptive_threshold"), ("otsu_level", "contrast.rs:otsu_level")])

p("C13", "distance_transform gives the exact distance to the nearest foreground pixel",
  "For the L1 and LInf norms, distance_transform returns at each pixel the distance to the closest non-zero pixel, saturated at 255 (and for L2 the Euclidean distance rounded up, saturated at 255); every pixel is 255 when there is no non-zero pixel. The in-place form agrees.",
  ["inputs"], "every image of any size and every norm", "Tests enumerate sparse images of one size and compare against a hand-written reference only for one norm.",
  ["distance_transform.rs"], [("two raster sweeps", "distance_transform.rs:distance_transform_impl")])

p("C14", "euclidean_squared_distance_transform is the exact squared distance map",
  "euclidean_squared_distance_transform returns at each pixel the exact minimum of squared Euclidean distance over all non-zero pixels, and an infinite value when there is none.",
  ["inputs"], "every binary image", "Tests compare with a reference on random images of one size; degenerate rows and columns are not enumerated.",
  ["distance_transform.rs"], [("lower envelope of parabolas", "distance_transform.rs:distance_transform_1d")])

p("C15", "Binary morphology is Minkowski dilation and erosion under the chosen norm",
  "dilate (erode) by k turns a pixel 255 (0) iff some non-zero (zero) pixel of the image lies within distance k under the norm and otherwise gives 0 (255), for k up to 254; open is erode then dilate and close is dilate then erode; the in-place forms agree.",
  ["inputs", "histories"], "every image, norm, radius and sequence of operations", "Tests use a few fixed images.",
  ["morphology.rs", "distance_transform.rs"], [("dilate_mut / erode_mut", "morphology.rs:dilate_mut")])

p("C16", "Grayscale morphology takes the max or min over exactly the mask's offsets",
  "Mask::square, diamond, disk and from_image contain exactly the documented offsets; grayscale_dilate and grayscale_erode return the maximum and minimum over the image pixels p+o, o in the mask, that lie inside the image (the type's least, greatest value when there are none); open and close are the compositions with the mask.",
  ["inputs"], "every image and mask, including masks larger than the image or not containing their centre", "Tests use fixed masks on 5x5 images.",
  ["morphology.rs"], [("Mask::apply", "morphology.rs:Mask"), ("mask_reduce", "morphology.rs:mask_reduce")])

p("C17", "connected_components labels exactly the components, in raster order",
  "connected_components gives two non-background pixels the same label iff a path of equal-valued pixels under the chosen connectivity joins them; background pixels get label 0, and labels are 1..n in raster order of each component's first pixel.",
  ["inputs"], "every image, background value and connectivity", "Tests use three fixed images and benchmarks.",
  ["region_labelling.rs", "union_find.rs"], [("raster scan with union-find", "region_labelling.rs:connected_components")])

p("C18", "The disjoint-set forest is the equivalence closure of its unions",
  "After any sequence of union, find and root calls, two elements have the same root iff they are linked by the unions so far, the root of a class does not change while no union changes the class, num_trees is the number of classes, and trees() lists each class exactly once with all its members.",
  ["histories"], "every finite history of union, find and root calls on any number of elements", "Tests run a few fixed union sequences.",
  ["union_find.rs"], [("DisjointSetForest", "union_find.rs:DisjointSetForest")])

p("C19", "flood_fill recolours exactly the 4-connected region of the seed and terminates",
  "flood_fill(image, x, y, c) sets to c exactly the pixels 4-connected to the seed through pixels equal to the seed's original value and changes nothing else, and it terminates for every colour including the seed's own; the in-place form agrees.",
  ["inputs", "histories"], "every image, seed and colour, and sequences of fills", "Tests fill one fixed image.",
  ["drawing/fill.rs"], [("scan-fill work list", "drawing/fill.rs:flood_fill_mut")])

p("C20", "find_contours reports every border once, with the right type and parent",
  "find_contours reports exactly one outer border per 8-connected foreground component and one hole border per hole (4-connected background component not joined to the frame), also for components touching the image frame. A border's points are exactly the component's pixels that are 4-adjacent to the surrounding background (outer) or to the hole (hole border), listed as a closed walk of 8-adjacent steps that passes no pixel more often than it has 4-neighbours in that background. A hole border's parent is the outer border of its component; the parent of a component inside a hole is that hole's border, and other components have none. find_contours_with_threshold(t) does the same with foreground > t.",
  ["inputs"], "every image and threshold, including components and holes touching the image frame", "Tests use four fixed images.",
  ["contours.rs"], [("border following", "contours.rs:find_contours_with_threshold")])

p("C21", "Line drawing follows the Bresenham line and clips it to the image",
  "BresenhamLineIter yields max(|dx|,|dy|)+1 points between its end points for integer coordinates, one per column (row for steep lines), starting from the end with the smaller major coordinate, each the pixel nearest to the ideal line with ties towards the starting row; float end points are truncated and the ideal line keeps its slope. draw_line_segment colours exactly those points that lie inside the image, its in-place form agrees, and BresenhamLinePixelIter(Mut) clamps the end points into the image and visits exactly the points inside it, in the same order.",
  ["inputs"], "every pair of end points inside or outside the image, with coordinates within 2^23 of zero (those the arithmetic of single precision holds exactly), every image size", "Tests draw a few lines per octant.",
  ["drawing/line.rs"], [("BresenhamLineIter::next", "drawing/line.rs:BresenhamLineIter")])

p("C22", "Rectangles, hollow rectangles and crosses colour exactly their pixels",
  "draw_filled_rect colours exactly the rectangle's pixels inside the image, draw_hollow_rect exactly its border pixels inside the image, and draw_cross the pixel and its four neighbours inside the image; nothing else changes, images with a zero side are left alone, and the in-place forms agree.",
  ["inputs", "histories"], "every rectangle or centre including ones partly or wholly outside, every image size", "Tests draw a few shapes.",
  ["drawing/rect.rs", "drawing/cross.rs"], [("draw_filled_rect_mut", "drawing/rect.rs:draw_filled_rect_mut")])

p("C23", "Circles and ellipses are symmetric, filled ones are the hull of hollow ones",
  "draw_hollow_circle colours the in-image points of the midpoint circle, 8-fold symmetric about the centre; draw_filled_circle colours exactly the horizontal spans between the outline's points; a negative radius draws nothing and radius 0 the centre. For radii rx, ry >= 1 draw_hollow_ellipse is symmetric about both axes, includes (cx, cy +/- ry), has an unbroken run of points in every row from cy-ry to cy+ry, and every point lies within 0.6 pixels of the ellipse horizontally or vertically (1 pixel when one radius exceeds six times the other); an ellipse with equal radii is the circle. draw_filled_ellipse is the row-wise span of the hollow one. Shapes partly or wholly outside the image are the same shapes clipped.",
  ["inputs"], "every centre and radius, inside or outside the image, with sums within the 32-bit range", "Tests draw six fixed ellipses/circles.",
  ["drawing/conics.rs"], [("draw_hollow_circle_mut", "drawing/conics.rs:draw_hollow_circle_mut"), ("draw_ellipse", "drawing/conics.rs:draw_ellipse")])

p("C24", "Polygon drawing fills the interior and boundary and clips to the image",
  "draw_polygon colours, in each image row, every pixel between consecutive crossings of the row with the polygon's edges (even-odd rule, crossings rounded to the nearest pixel), every Bresenham pixel of its edges, and no other; the list may or may not repeat its first point at the end. draw_hollow_polygon colours exactly the Bresenham pixels of its closed outline inside the image; it panics for a single point. Both draw nothing for an empty list, clip to the image, and agree with their in-place forms.",
  ["inputs"], "every vertex list with vertices inside or outside the image, with coordinates within 2^23 of zero", "Tests draw five fixed polygons.",
  ["drawing/polygon.rs"], [("scanline fill", "drawing/polygon.rs:draw_polygon_with_mut")])

p("C25", "Blended drawing applies each pixel's alpha blend, elsewhere drawing is opaque",
  "Drawing on Blend(image) blends the colour onto each pixel once per write exactly as Pixel::blend does and otherwise touches the same pixels as drawing on the image itself; antialiased line drawing calls the blend function for each pixel inside the image with weight max(0, 1-|distance|), the distance being vertical to the ideal line (horizontal for steep lines), at most once per pixel, and leaves every other pixel alone, for end points inside or outside the image. An antialiased polygon is filled away from its edges and leaves pixels off it alone.",
  ["inputs"], "every shape, colour and alpha, with coordinates within 2^23 of zero", "Tests draw two blended rectangles and a few antialiased lines.",
  ["drawing/canvas.rs", "drawing/line.rs"], [("Blend::draw_pixel", "drawing/canvas.rs:Blend"), ("plot_wu_line", "drawing/line.rs:plot_wu_line")])

p("C26", "Rect agrees with its point set under intersection and containment",
  "A Rect built by at(x, y).of_size(w, h) covers exactly the points with left<=x<=right and top<=y<=bottom, where right=left+w-1 and bottom=top+h-1, each limited to the greatest i32; intersect returns the rectangle covering exactly the common points and None iff there is none; contains agrees with the point set for integers and with the closed rectangle for floats; of_size panics iff width or height is 0.",
  ["inputs"], "every pair of rectangles and every point", "Tests check six intersections.",
  ["rect.rs"], [("intersect", "rect.rs:intersect"), ("contains", "rect.rs:contains")])

p("C27", "Non-maximum suppression keeps exactly the block maxima",
  "suppress_non_maximum keeps the value of each pixel that has the greatest value in the (2r+1)-square centred on it, clipped to the image (of equal values the one with the least x, then least y), and gives zero elsewhere. local_maxima returns exactly the scored positions for which no other position within the square of radius r has a greater score, or an equal score and an earlier position by row, then column.",
  ["inputs"], "every image and radius; every list of scored positions", "Tests compare against a reference on random images of one size and a few point lists.",
  ["suppress.rs"], [("suppress_non_maximum", "suppress.rs:suppress_non_maximum"), ("local_maxima", "suppress.rs:local_maxima")])

p("C28", "FAST corners are exactly the pixels passing the segment test, with exact scores",
  "corners_fast9 (corners_fast12) reports exactly the pixels at least 3 from each border with 9 (12) contiguous pixels of the radius-3 circle all brighter than the pixel by more than the threshold or all darker by more than it, in raster order; the score, also of fast_corner_score, is the largest threshold (not below the given one) for which the pixel is still a corner; an image with a side below 7 has none.",
  ["inputs"], "every image, threshold and variant", "Tests use one fixed image per case.",
  ["corners.rs"], [("is_corner_fast9/12", "corners.rs:is_corner_fast9"), ("fast_corner_score binary search", "corners.rs:fast_corner_score")])

p("C29", "Local binary patterns encode the eight neighbour comparisons",
  "local_binary_pattern(image, x, y) is None within one pixel of the border or outside the image and otherwise the byte whose bits, clockwise from the pixel above (bit 0), tell whether the neighbour is strictly darker than the centre. min_shift is the least value over all bit rotations; count_transitions the number of circular 0/1 transitions; the tables MIN_SHIFT and UNIFORM_REPRESENTATIVE_2 (min_shift for at most two transitions, 170 otherwise) agree with them for all 256 patterns.",
  ["inputs"], "every 3x3 neighbourhood, all 256 patterns", "Tests check one pattern and a few shifts.",
  ["local_binary_patterns.rs"], [("local_binary_pattern", "local_binary_patterns.rs:local_binary_pattern")])

p("C30", "Haar features: enumeration is complete and evaluation is the signed area sum",
  "enumerate_haar_features(w, h) lists every feature of the five types that fits in a w-by-h window exactly once in each sign and number_of_haar_features is its length, for every frame side up to 255; for larger sides number_of_haar_features is the number of such features as long as it fits in 32 bits; HaarFeature::evaluate is the sum of image samples over its white blocks minus its black blocks, and panics iff the feature does not fit in the image; draw_haar_feature colours exactly those blocks, alternately white and black, and the in-place form agrees.",
  ["inputs"], "all frame sizes; all features on all images", "Tests count features for three frame sizes and evaluate five features.",
  ["haar.rs"], [("enumerate_haar_features", "haar.rs:enumerate_haar_features"), ("evaluate", "haar.rs:HaarFeature")])

p("C31", "Seam carving removes a minimum-energy connected seam per step",
  "find_vertical_seam returns one x per row, adjacent rows differing by at most 1, whose total Sobel gradient magnitude (mean over channels, each magnitude truncated) is the minimum over all such seams; remove_vertical_seam deletes exactly those pixels and shifts the rest of each row left, and panics if the seam's length is not the image height; shrink_width repeats this until the target width and panics for a target of 0 or above the width; draw_vertical_seams, given seams removed one after the other, marks in red exactly the pixels of the original image that they removed and shows the rest in grey.",
  ["inputs", "histories"], "every image at least one pixel high, every number of removals", "Tests remove one hand-written seam.",
  ["seam_carving.rs"], [("find_vertical_seam", "seam_carving.rs:find_vertical_seam")])

p("C32", "Template matching scores every placement by the exact formula",
  "match_template and match_template_with_mask return, for each placement of the template inside the image, the sum of squared differences or the cross-correlation (with a mask, template and image samples are both multiplied by the mask before), normalized variants divided by the root of the product of the energies of template and image patch unless one of these is zero; the output has size (W-w+1)x(H-h+1), the parallel variants agree, and a template larger than the image or a mask of another size panics.",
  ["inputs", "schedules"], "every image, template and mask", "Tests use one 3x3 image per method.",
  ["template_matching.rs"], [("methods and mask", "template_matching.rs:match_template")])

p("C33", "Binary descriptors compare the sampled pixel pairs and match near ones",
  "brief returns an error iff the length is not a multiple of 128, differs from the number of test pairs, or a keypoint lies within 15 pixels of the border; otherwise each keypoint's descriptor has exactly one bit per test pair, in order from the most significant bit of each 128-bit chunk, set iff the mean of the 5x5 square (clipped to the image, rounded down) at the first test point is below that at the second, test point (x, y) denoting the pixel keypoint + (x-14, y-14); a square entirely outside the image has mean 0. hamming_distance counts differing bits and panics for unequal lengths; get_bit_subset concatenates the bits at the given indices. match_binary_descriptors pairs descriptors of d1, each at most once and in order, with descriptors of d2 at a distance below the threshold; a descriptor that also occurs in d2 is matched at distance 0, and with a single descriptor in d2 every descriptor within the threshold is matched.",
  ["inputs"], "every image, keypoint set and test-pair set", "Tests check sizes and a few descriptors.",
  ["binary_descriptors/brief.rs", "binary_descriptors/mod.rs"], [("brief_impl", "binary_descriptors/brief.rs:brief_impl"), ("match_binary_descriptors", "binary_descriptors/mod.rs")])

p("C34", "Hough line detection reports exactly the suppressed accumulator peaks",
  "detect_lines lets each non-zero pixel (x, y) vote once per whole degree for r = x cos + y sin truncated to an integer, and reports exactly the accumulator cells with at least vote_threshold (>= 1) votes that are maximal in the square of the suppression radius, in order of degree and r. intersection_points returns the two points where the line meets the border of the image rectangle, and None only if the line misses or just touches it; draw_polar_lines colours the segment between them inside the image and nothing else.",
  ["inputs"], "every binary image of any size, threshold and suppression radius; every line and image size", "Tests detect a single line.",
  ["hough.rs"], [("accumulator", "hough.rs:detect_lines"), ("intersection_points", "hough.rs:intersection_points")])

p("C35", "Canny edges are exactly the weak pixels connected to a strong one",
  "canny returns a binary (0/255) image whose edge pixels are exactly the non-maximum-suppressed pixels of gradient magnitude at least low that are 8-connected through such pixels to one of at least high; raising either threshold never adds an edge pixel, and the output has the input's size.",
  ["inputs"], "every image and threshold pair", "Tests check two random images for not panicking and one zero image.",
  ["edges.rs"], [("hysteresis", "edges.rs:hysteresis"), ("non_maximum_suppression", "edges.rs:non_maximum_suppression")])

p("C36", "Convex hulls, areas, lengths, polygon approximation and minimum-area boxes",
  "convex_hull returns exactly the extreme points of the input once each, in order around the boundary; contour_area is half the absolute shoelace sum, oriented_contour_area its signed value, both 0 for fewer than three points; arc_length sums the edge lengths, plus the closing edge when closed and there are more than two points; approximate_polygon_dp keeps both end points and a subsequence such that every dropped point lies within epsilon of the line through the kept points around it (of the point, if these are equal), leaves nothing out of points in general position for an epsilon below their distances, leaves out the last point when closed, and panics for epsilon <= 0; min_area_rect panics for no points and otherwise returns, to within one pixel, the corners of a rectangle along a hull edge that encloses every point and has the least area among all hull edges, in the order top left, top right, bottom right, bottom left.",
  ["inputs"], "every point list, including duplicates, collinear points and one or two points (at least two for approximate_polygon_dp)", "Tests use four fixed point sets.",
  ["geometry.rs", "point.rs"], [("convex_hull", "geometry.rs:convex_hull"), ("rotating_calipers", "geometry.rs:rotating_calipers")])

p("C37", "Map functions apply the function once to every pixel at its own coordinates",
  "map_subpixels, map_pixels and map_enumerated_pixels (and the in-place and parallel variants) return an image of the input's size whose pixel at (x, y) is the function of the input pixel at (x, y) (and of its coordinates), calling it exactly once per pixel (sample), under every schedule; map_pixels2 pairs equal coordinates and panics when the dimensions differ; red_channel, green_channel and blue_channel extract the named channel and as_red_channel, as_green_channel and as_blue_channel put a grey image into it with the others zero.",
  ["inputs", "schedules"], "every image and every thread schedule", "Tests cover two 2x2 examples per function.",
  ["map.rs"], [("map_*", "map.rs")])

p("C38", "Pixel arithmetic saturates and rounds as documented",
  "Clamp::clamp returns the nearest value of the target type (truncating fractions) for every source value; weighted_sum and interpolate give the clamped weighted sum channel by channel.",
  ["inputs"], "all values of the small source types, boundary values of the wide ones, all weights that are exact in binary", "Tests check a few values.",
  ["definitions.rs", "pixelops.rs"], [("implement_clamp", "definitions.rs"), ("weighted_sum", "pixelops.rs:weighted_sum")])

p("C39", "Perceptual hashes hold 64 cosine coefficients under the Hamming metric",
  "phash of an image resamples it to 32x32 grey values and has one bit for each pair of horizontal and vertical frequencies 1 to 8, set iff that coefficient of the cosine transform exceeds the mean of the 64; PHash::hamming_distance is the number of differing bits: a metric, zero iff the hashes are equal, and equal hashes have equal std hashes; the hash of an image does not depend on the run.",
  ["inputs"], "images that are sums of cosine patterns, of every size; every pair and triple of images for the metric", "Tests compare two images.",
  ["image_hash/phash.rs", "image_hash/bits.rs"], [("Bits64", "image_hash/bits.rs")])

p("C40", "HOG descriptors are the normalised cell histograms of an exact tiling",
  "HogSpec::from_options accepts exactly the sizes that its cells and blocks tile, naming the side that does not fit otherwise; hog returns descriptor_length values, the blocks in row-major order, each the L2-normalised concatenation of its cells' histograms, in which every pixel adds its Sobel gradient magnitude, shared linearly between the two nearest orientations (the last wrapping to the first) and bilinearly between the nearest cells within the image; render_hist_grid draws each cell's star inside its own tile, black for an empty histogram: from the tile's centre, for each bin in turn, a ray in the bin's direction (the angle theta points along (-sin theta, cos theta); both opposite directions for unsigned histograms) with the bin's clamped strength as grey level.",
  ["inputs", "configurations"], "every image size and every set of positive options", "Tests check three sizes.",
  ["hog.rs"], [("HogSpec::from_options", "hog.rs:HogSpec")])

p("C41", "Gaussian blur, sharpening and bilateral filter are Gaussian-weighted means",
  "gaussian_blur_f32 gives, by a row pass followed by a column pass (each clamped and truncated to the sample type), the mean of the samples within ceil(2 sigma) of the pixel weighted by exp(-d^2 / 2 sigma^2), border samples replicated, and panics for sigma <= 0; sharpen_gaussian is (1 + amount) times the image minus amount times its untruncated blur, clamped; bilateral_filter truncates the mean over the (2 radius + 1)-square (border replicated) weighted by exp(-d^2 / 2 sigma^2) of the distance and by the colour distance to the centre, which GaussianEuclideanColorDistance defines as exp(-d^2 / 2 sigma^2) of the colours' Euclidean distance, and panics for an empty image. All hold up to numeric rounding.",
  ["inputs"], "every image, channel count, radius, amount and positive sigma", "Tests compare single examples within a tolerance.",
  ["filter/mod.rs", "filter/bilateral.rs", "filter/sharpen.rs"],
  [("gaussian_kernel_f32", "filter/mod.rs"), ("bilateral_filter", "filter/bilateral.rs")])

p("C42", "Bezier curves and text drawing stay on their curve and glyphs",
  "draw_cubic_bezier_curve colours a set of pixels that contains both end points, stays in the bounding box of the four control points, comes within 2 pixels of every point of the curve and has no pixel farther than 4 pixels from it, clipped to the image. draw_text paints each glyph of the string at its pen position (starting at x, advancing by the glyph advances, baseline at y plus the font's ascent), clipped to the image and blended by coverage, and changes no other pixel; text_size is the painted extent of the string. In-place forms agree.",
  ["inputs"], "every set of control points, every string (in a font without kerning), position and image size", "Tests compare two fixed curves and no text.",
  ["drawing/bezier.rs", "drawing/text.rs"], [("draw_cubic_bezier_curve_mut", "drawing/bezier.rs:draw_cubic_bezier_curve_mut"), ("layout_glyphs", "drawing/text.rs:layout_glyphs")])

p("C43", "Oriented FAST returns the best corners with their centroid angle",
  "oriented_fast with a threshold returns the target number of highest-scoring FAST-9 corners (all if there are fewer) that lie at least edge_radius from every border, by descending score; without a threshold it does so for some threshold, and repeats for a fixed seed. The orientation of a corner is the angle of the intensity centroid of the 31x31 square around it, clipped to the image, relative to the corner, with y downwards. If no pixel lies that far from the borders there are no corners.",
  ["inputs"], "every image, edge radius, target number, threshold and seed", "Tests check one image with a tolerance.",
  ["corners.rs"], [("oriented_fast", "corners.rs:oriented_fast"), ("intensity_centroid", "corners.rs:intensity_centroid")])

p("C44", "The Kapur level maximises the entropy of the two classes",
  "kapur_level returns a level v such that the entropy of the grey levels at most v plus the entropy of those above v is the greatest over all levels that leave both classes non-empty, and 0 if no level does.",
  ["inputs"], "every non-empty image", "Tests check one gradient and constant images.",
  ["contrast.rs"], [("kapur_level", "contrast.rs:kapur_level")])

p("C45", "Noise has the requested distribution and is reproducible from its seed",
  "salt_and_pepper_noise leaves each pixel alone or turns it, independently with probability rate, into black or white with equal probability (every channel together, alpha opaque); a rate of 0 or less changes nothing and of 1 or more changes everything. gaussian_noise adds independent Gaussian noise of the given mean and standard deviation to every channel, clamped and truncated to the sample type; with deviation 0 it adds exactly the mean. Both give the same result for the same seed and other noise for another seed, and the in-place forms agree.",
  ["inputs"], "every image, rate, mean, deviation and seed (distributions judged at five standard deviations on 2000 to 70000 samples)", "The code has no tests for noise.",
  ["noise.rs"], [("salt_and_pepper_noise_mut", "noise.rs:salt_and_pepper_noise_mut"), ("gaussian_noise_mut", "noise.rs:gaussian_noise_mut")])

p("C46", "Kernels, points, norms and the image comparison helpers are exact",
  "Kernel::new panics unless both dimensions are positive and their product is the slice length; get (and get_unchecked within bounds) reads row-major; the predefined Sobel, Scharr, Prewitt, Roberts and Laplacian kernels have their documented values. Point addition and subtraction (also in place) are componentwise. l1_norm and l2_norm are the sum of absolute values and the root of the sum of squares. HasBlack and HasWhite give all channels the least or greatest value, with opaque alpha. pixel_diffs lists, in raster order, exactly the pixels for which the predicate holds, with both values; pixel_diff_summary and significant_pixel_diff_summary are None iff dimensions and pixels match; assert_pixels_eq, assert_pixels_eq_within and assert_dimensions_match panic iff the images differ (by more than the tolerance in some channel; in size); gray_image, rgb_image and rgba_image build the image with exactly the listed rows.",
  ["inputs"], "every kernel size, every pair of images of up to 12x12 pixels, every tolerance", "The helpers are used by tests but have none of their own beyond a few examples.",
  ["kernel.rs", "point.rs", "math.rs", "definitions.rs", "utils.rs"], [("Kernel", "kernel.rs:Kernel"), ("pixel_diffs", "utils.rs:pixel_diffs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
