HOOKS = None

TECH = {
 "eff": ("inclusion-based, field- and call-string-sensitive points-to and effect analysis over SSA, per exported function",
        "Flow-insensitive over-approximation of what may be written, shared or read, over all call strings; callbacks handed in by the caller are taken to be pure, library functions follow a table of mutators. A write, alias or dependence reported names the instruction and call chain."),
 "eq": ("gated value-graph (SSA) equivalence against reference functions, with polyhedral path facts",
        "Sound up to the assumptions in the evidence (exact real arithmetic instead of float64 rounding, NaN inputs excluded, models of library functions): every input is covered because functions are compared as symbolic summaries with closed loops, never executed. A comparison the domain cannot close is reported as undecided and does not alarm."),
}

PROPS = [
 dict(id="P01", title="Functions do not modify what they are given",
  statement="No exported function or method of the three packages writes memory reachable from its arguments, including the elements of a slice passed with ... and the spare capacity behind it. The only exceptions are the receivers of mutating methods (the set, append, insert, delete, reverse and add methods, the vector operations in place, and the R-tree updates). Searching, measuring, converting, simplifying, hull and rectangle construction, and encoding all leave their inputs as they were.",
  forall="all arguments, aliasing between them and slice capacities", why="Tests look at results and hardly ever at their inputs afterwards, never at spare capacity.",
  files=["convexhull.go","simplify.go","linearRing.go","lineString.go","polygon.go","mbr.go","calcaulation.go","rtree.go","geojson/geojson.go","geojson/feature.go","wkt/encode.go"],
  mech=[{"name":"every exported function with a reference argument","where":"whole module"}], tech="eff"),
 dict(id="P02", title="Constructors and converters return storage of their own",
  statement="Lines, rings, multi-points and polygons built from points, the ring of a line, both halves of a split line, buffers, hulls, minimum rectangles, rotated and simplified geometries, bounding boxes and everything the GeoJSON readers and writers return share no memory with the arguments, with package variables, or between the two halves of a split: a later change to one never shows in another. Containers built from parts (polygon from rings, multi-geometries, R-trees) have their own list, and search results never alias the tree's nodes. No two parts of a result are written into one buffer.",
  forall="all arguments and all later modifications", why="Aliasing shows only when something is modified after the call, which no test does.",
  files=["lineString.go","linearRing.go","linearRingZ.go","multipoint.go","polygon.go","polygonZ.go","convexhull.go","mbr.go","buffer.go","box.go","simplify.go","rtree.go","geojson/geojson.go"],
  mech=[{"name":"constructors, ToRing, SplitByIndex, Convert*Set, Unmarshal*, Search*","where":"whole module"}], tech="eff"),
 dict(id="P03", title="Results depend on the arguments only",
  statement="No exported function writes package-level state except the SRID setters, which write only the SRID table, and none but those setters reads that table, so earlier calls never influence later ones. None depends on the clock, random numbers, the environment or the iteration order of a map, except the two R-tree functions whose purpose is to generate identifiers.",
  forall="all call histories", why="A test process makes each call a few times in one order.",
  files=["srid.go","polygon.go","point.go","lonlat.go","utm.go","rtree.go","geojson/feature.go"],
  mech=[{"name":"SridMap, NewRandomIDTree, InsertWithRandomId","where":"srid.go, rtree.go"}], tech="eff"),
 dict(id="P04", title="Vertex and part lists behave as exact sequences",
  statement="Building a line, multi-point, multi-line, polygon or multi-polygon from parts keeps exactly those parts in order, and append, insert, replace, delete, reverse and split produce exactly the sequence their name promises: nothing lost, duplicated or reordered, for every valid position including the first and last. Splitting at a vertex puts that vertex in both halves; the first/last accessors give the first and last vertex of a line with at least two. The ring accessors of a polygon give its first ring and the remaining ones.",
  forall="all vertex sequences, of any length, and all valid positions",
  why="The tests call these on one or two short lines and mostly print; the property is about every length and position.",
  files=["lineString.go","lineStringZ.go","multipoint.go","polygon.go","polygonZ.go","linearRing.go"],
  mech=[{"name":"LineString.InsertPoint / DelPoint / SetPoint / SplitByIndex / Reverse","where":"lineString.go"},{"name":"Polygon.SetExteriorRing / AddInteriorRing","where":"polygon.go"}], tech="eq"),
 dict(id="P05", title="Positions outside a line are reported, never a crash",
  statement="Getting, inserting, replacing or deleting a vertex at a negative position or beyond the end of a line returns an error (or nil from the getter) and leaves the line unchanged. Verifying a line of fewer than two vertices returns an error. None of these, nor asking an empty polygon for its exterior ring, panics.",
  forall="all lines and all integer positions",
  why="Tests use in-range positions only.",
  files=["lineString.go","polygon.go","polygonZ.go"],
  mech=[{"name":"range tests in the LineString mutators","where":"lineString.go:56"}], tech="eq"),
 dict(id="P14", title="Every geometry reports its own type name",
  statement="Each of the thirteen geometry kinds (point, multi-point, line, multi-line, polygon, multi-polygon, their 3D forms, and collection) reports its own type name, and all names are distinct.",
  forall="all geometry values", why="No test looks at the type names of the 3D kinds or collections.",
  files=["type.go","geometry.go"], mech=[{"name":"Type methods","where":"type.go"}], tech="eq"),
 dict(id="P15", title="Box predicates are the closed rectangle relations",
  statement="For every pair of boxes, contain, intersect, union and size are containment, overlap (touching edges count), least enclosing rectangle and area of closed axis-parallel rectangles; a point is in a box exactly if both its coordinates are within the closed ranges. A rectangle built around a point extends by the given half sizes in each direction.",
  forall="all boxes and points with finite coordinates, in every relative position",
  why="Two or three fixed boxes are tested; every side and corner case matters because R-tree search and bounding box filters rely on them.",
  files=["box.go"], mech=[{"name":"Box.Contain, Box.Intersect, Box.Union, Box.Size, IsPointInBox","where":"box.go"}], tech="eq"),
 dict(id="P16", title="The bounding box of a geometry is the tight box of its vertices",
  statement="For every non-empty 2D point, multi-point, line, multi-line, polygon and multi-polygon the bounding box has exactly the minimum and maximum x and y over its vertices (for a polygon, those of its exterior ring). This holds whatever the sign or magnitude of the coordinates and however many parts there are.",
  forall="all 2D geometries of any size", why="Tests use a handful of positive coordinates and one part.",
  files=["box.go"], mech=[{"name":"BoundingBox","where":"box.go:71"}], tech="eq"),
 dict(id="P17", title="Distances are the Euclidean and haversine formulas, chosen by SRID",
  statement="Planar distance is the root of the sum of squared coordinate differences (in two or three dimensions), geographic distance is the haversine formula on a sphere of radius 6371000 m with x as longitude and y as latitude, and a distance with an SRID is geographic for 4326 and planar for any other. A line's length is the sum of the planar distances of its consecutive vertices.",
  forall="all pairs of points, all SRIDs, lines of any length", why="Tests print distances for a few pairs.",
  files=["point.go","pointZ.go","calcaulation.go","lineString.go","linearRing.go"],
  mech=[{"name":"EuclideanDis, CoordDistance, PointDistance","where":"point.go, calcaulation.go:115"}], tech="eq"),
 dict(id="P18", title="Nearest and Hausdorff searches look at every vertex and segment",
  statement="The nearest hit of a point on a line is the closest over all its segments, with the index of the first such segment; the distance to a polygon is zero inside or on its exterior ring and otherwise the smallest over all edges of that ring. The Hausdorff distance of two lines of non-zero length is the larger of the two directed maxima of nearest-vertex distances.",
  forall="all points and lines or polygons of any number of vertices", why="Tests use one short line; a skipped first, last or closing segment only matters when it is the nearest one.",
  files=["calcaulation.go"], mech=[{"name":"PointHitLineString, PointPolygonDistance, HausdorffDistance","where":"calcaulation.go:216"}], tech="eq"),
 dict(id="P19", title="Constructed rings are closed and otherwise keep their vertices",
  statement="A ring or polygon built from points or from a line of at least two vertices has exactly those vertices in order, with the first one repeated at the end if and only if it was not already equal to the last; fewer than two vertices give no ring. The polygon of a box is the closed ring of its four corners.",
  forall="all vertex lists, in 2D and 3D", why="Tests build one triangle.",
  files=["linearRing.go","linearRingZ.go","polygon.go","polygonZ.go","box.go","lineString.go","lineStringZ.go"],
  mech=[{"name":"NewLinearRing, NewRingFromLine, NewPolygonFromPois, BoxToGeo","where":"linearRing.go"}], tech="eq"),
 dict(id="P20", title="Areas, orientation and centroids are the shoelace formulas",
  statement="The area of a polygon is half the absolute shoelace sum of its exterior ring, that of a multi-polygon the sum over all its parts, and other geometries have area zero; a polygon is counter-clockwise exactly if the signed sum is positive. The centroid of a point set is the mean and that of a closed ring the area-weighted one, computed over every edge.",
  forall="all polygons with any number of vertices and parts", why="Tests check a square; a dropped edge or wrong sign shows only on asymmetric shapes.",
  files=["calcaulation.go","polygon.go","convexhull.go"], mech=[{"name":"GetArea, relativeArea, Centroid, LinearCentroid","where":"calcaulation.go:38"}], tech="eq"),
 dict(id="P21", title="UTM conversions follow the standard series, zones and ranges",
  statement="Converting a latitude/longitude to UTM and back computes the standard transverse Mercator series on WGS84 with the zone rules (including the Norway and Svalbard exceptions and longitude 180) and band letters of the UTM grid. Coordinates outside the valid ranges, and contradictory hemisphere arguments, are reported as errors and nothing else is.",
  forall="all latitudes, longitudes, eastings, northings, zones and letters", why="Tests cover four places; zone, band and range boundaries and the higher-order terms are not reached.",
  files=["utm.go"], mech=[{"name":"FromLatLon, ToLatLon, latLonToZoneNumber, latitudeToZoneLetter","where":"utm.go"}], tech="eq",
  note="The reference takes the letter argument's first byte, and the hemisphere letter produced under northern=true, as the code does; see DESIGN.md for the recorded limitation."),
 dict(id="P22", title="WGS84, GCJ-02 and BD-09 conversions are the published formulas",
  statement="Each of the six conversions computes the published GCJ-02 shift or BD-09 rotation, with longitude first and latitude second, and conversions between WGS84 and BD-09 are the composition through GCJ-02. Outside the mainland China rectangle the GCJ-02 conversions return their input unchanged.",
  forall="all longitude/latitude pairs", why="Tests print one place; a wrong coefficient or a swapped boundary affects metres in places not sampled.",
  files=["lonlat.go"], mech=[{"name":"transform, transformlat, transformlng, outOfChina","where":"lonlat.go"}], tech="eq"),
 dict(id="P23", title="Angles, azimuths, destinations and rotations have the right sign and unit",
  statement="Azimuth and destination point are the great-circle formulas in degrees (azimuth within [0,360), longitude within [-180,180)); the angle at a vertex is counted from the first arm, within [0,2π), with an error for coinciding points. Rotating a point or polygon by an angle turns every vertex about the given centre clockwise (or, for the other function, counter-clockwise), truncated to four decimals.",
  forall="all points, centres, angles and polygons", why="Tests print a few values.",
  files=["angle.go","calcaulation.go","point.go"], mech=[{"name":"GetAzimuth, CacAngle, RotateCW, RotateCCW, DestinationPoint","where":"calcaulation.go"}], tech="eq"),
 dict(id="P24", title="Geohash and S2 calls map x to longitude and y to latitude",
  statement="Encoding, centre, boundary and neighbours of a geohash or S2 cell are those of the underlying library for latitude y and longitude x (and back), at the requested precision or level; boundary vertices and neighbours all appear, in the library's order. The S2 cell functions answer only for SRID 4326 and give an empty result for any other. Covering a polygon gives every cell s2 finds, in order, for the exterior ring counterclockwise from its first vertex, at the requested level.",
  forall="all points, hashes, cell ids, precisions and levels", why="Tests call them with one place and print.",
  files=["geohash.go","googleS2.go"], mech=[{"name":"GeohashEncode, S2GetCellID, S2GetBoundary","where":"geohash.go, googleS2.go"}], tech="eq",
  note="The geohash and s2 libraries are uninterpreted: only what is passed to them and how their results are used is decided; the covering on the instance of a closed triangle with a hole, whichever way it turns."),
 dict(id="P32", title="Equality compares every vertex and coordinate within the precision",
  statement="Two points are equal exactly if every coordinate (x and y, and z in 3D) differs by less than the coordinate precision in either direction, and two lines exactly if they have the same number of vertices and all corresponding vertices are equal. Vectors are equal exactly if both components are.",
  forall="all pairs of points, lines and vectors", why="Tests compare one equal pair.",
  files=["point.go","pointZ.go","lineString.go","lineStringZ.go","vector.go"], mech=[{"name":"Equal methods","where":"point.go:39"}], tech="eq"),
 dict(id="P33", title="Segment, line and polygon relations examine every edge",
  statement="Two segments intersect exactly if they cross in both interiors; a point is on a segment exactly if it is collinear and within its box, and on a line if it is on any of its segments; two lines intersect as soon as any pair of their segments is not disjoint. The relation of a segment, line, ring or polygon to a polygon is decided from every edge of the exterior ring, the closing edge included, and from where its ends lie; a ring self-intersects exactly if two of its edges cross.",
  forall="all segments, lines, rings and polygons with any number of vertices", why="Tests use one or two placements, none near the last edge.",
  files=["relation.go","polygon.go"], mech=[{"name":"SegmentRelation, SegPolyRelation, LinePolyRelation, PolyRelation, SelfIntersect","where":"relation.go"}], tech="eq"),
 dict(id="P34", title="Vector algebra, constructors and coordinate setters are exact",
  statement="Adding, subtracting, scaling, dividing, dot and cross product, length and normalisation of vectors are the textbook operations, and a vector of a segment or point pair runs from its start to its end. Point constructors and setters store exactly the given coordinate and change no other.",
  forall="all vectors and points (non-zero divisors)", why="No test asserts on them.",
  files=["vector.go","point.go","pointZ.go"], mech=[{"name":"Vector2 methods","where":"vector.go"}], tech="eq"),
 dict(id="P35", title="The nearest point of a segment is its clamped projection",
  statement="The nearest point of a segment to a given point is the orthogonal projection onto its line, replaced by the start or the end when the projection falls before or after the segment, and the distance is measured to that point under the given SRID. The line variant does not clamp and also returns the projection parameter; a segment whose ends coincide gives that end.",
  forall="all points and segments, degenerate ones included, all SRIDs", why="Tests print two cases; clamping at the far end and degenerate segments are not reached.",
  files=["calcaulation.go"], mech=[{"name":"PointToSegmentDistance, PointToLineDistance","where":"calcaulation.go:128"}], tech="eq"),
 dict(id="P36", title="Point in polygon is the crossing rule over every ring edge",
  statement="A point on any edge of the exterior ring, the closing one included, touches the polygon; otherwise it is contained exactly if a ray from it crosses an odd number of ring edges, counting each edge whose ends lie on different sides once, with the documented tolerance. Everything else is disjoint.",
  forall="all points and exterior rings with any number of vertices", why="Tests check a few points against one polygon, away from vertices.",
  files=["contain.go"], mech=[{"name":"IsPointInPolygon","where":"contain.go:19"}], tech="eq"),
 dict(id="P37", title="Polygon verification accepts exactly the valid exterior rings",
  statement="Verifying a polygon succeeds exactly if its exterior ring has at least four positions, every one but the closing last has a latitude within [-90,90] and a longitude within [-180,180], its area is not (to within 1e-10) zero, and it does not cross itself. Every other polygon, the empty one included, gives an error.",
  forall="all polygons", why="Tests verify one polygon.",
  files=["polygon.go"], mech=[{"name":"Polygon.Verify","where":"polygon.go:64"}], tech="eq"),
 dict(id="P06", title="Functions return for any arguments, empty and malformed ones included",
  statement="No exported function or method of the geometry, WKT and GeoJSON code (R-tree, convex hull, minimum rectangle and simplification apart) panics, whatever the number of its points, lines, rings and parts (none included) and whatever its numbers and texts. The exceptions are: nil pointers and nil interfaces given as arguments; dividing a vector by zero and normalising the zero vector; splitting a line at a position outside it; rotating a value that is not one of the geometry kinds. Degenerate polygons, empty lines, rings and geometries are ordinary arguments.",
  forall="all argument values and list lengths", why="Tests pass well-formed, non-empty geometries.",
  files=["calcaulation.go","centroid.go","buffer.go","s2util.go","lineString.go","polygon.go","box.go","geojson/geojson.go","geojson/properties.go","wkt/encode.go","wkt/decode.go"],
  mech=[{"name":"index, nil, division, type-assertion and slice obligations of every exported function","where":"whole module"}], tech="eq",
  note="Not covered here: the inside of library calls, memory exhaustion and endless loops. R-tree, hull, minimum rectangle and simplification are covered through other properties."),
 dict(id="P08", title="WKT text carries every part and coordinate in the grammar of its type",
  statement="Encoding a point, line, polygon or their multi and 3D forms as WKT gives the keyword of the type followed by nested parenthesised comma-separated lists that mirror its parts, in order. Every position is its coordinates x y (and z for 3D) separated by one blank, each in the shortest decimal form without exponent that reads back as the same number. Other geometries give the empty string.",
  forall="all geometries of the twelve kinds, of any size", why="Tests print the text of one or two short 2D geometries; parts after the first, 3D kinds and large or tiny coordinates are not looked at.",
  files=["wkt/encode.go"], mech=[{"name":"Encode","where":"wkt/encode.go"}], tech="eq"),
 dict(id="P11", title="WKT reading keeps every position and part, or reports an error",
  statement="Reading WKT selects the reader by its keyword (point, line, polygon and their multi forms) and gives exactly the positions and parts written, in order, as x y or x y z; three coordinates give the 3D type. A coordinate that is not a number, a position of fewer than two coordinates and an unknown keyword give an error, and no text makes a reader panic.",
  forall="all strings", why="Tests read one well-formed text per type; malformed text, later parts and 3D positions are not covered.",
  files=["wkt/decode.go"], mech=[{"name":"Decode and the six *FromWKT readers","where":"wkt/decode.go"}], tech="eq",
  note="The regular expression library is uninterpreted: the patterns and how their matches are used must agree, texts that no pattern matches are not judged."),
 dict(id="P09", title="GeoJSON of a geometry has its type and every coordinate, nested correctly",
  statement="Marshalling any of the twelve geometry kinds gives an object whose type is the GeoJSON name of the kind and whose coordinates are all its positions, [x,y] or [x,y,z], in order and nested as that type requires; every part and ring appears. Any other value gives an error.",
  forall="all geometries with any number of parts, rings and vertices", why="Tests print one point and one line.",
  files=["geojson/geojson.go"], mech=[{"name":"MarshalGeo and the Convert* functions","where":"geojson/geojson.go:18"}], tech="eq",
  note="encoding/json is modelled by the members (after tags and omitempty) and their values it is handed."),
 dict(id="P10", title="GeoJSON reading keeps every position, or reports malformed coordinates",
  statement="Unmarshalling a Point, LineString or Polygon whose positions all have two numbers, or all three, gives the 2D or 3D geometry with exactly those positions and rings in order. Positions of fewer than two numbers, of mixed dimensions, wrongly nested or non-numeric coordinates, a missing geometry and any other type give an error, and none of these panics.",
  forall="all decoded JSON coordinate values", why="Tests read well-formed 2D samples; malformed nesting in later rings or positions is not covered.",
  files=["geojson/geojson.go"], mech=[{"name":"UnmarshalGeo, checkCoordinates, inter2*","where":"geojson/geojson.go:100"}], tech="eq"),
 dict(id="P12", title="Features and collections carry their GeoJSON members",
  statement="A feature is written with type, geometry and properties always and id, bbox and crs exactly if they are set; a feature collection with type, the list of all its features (empty, never null) and bbox and crs if set. A new feature holds the encoded geometry, and its bounding box is [minx, miny, maxx, maxy] of it; adding a feature appends it.",
  forall="all features and collections", why="Tests look at a few members of one feature.",
  files=["geojson/feature.go","geojson/feature_collection.go"], mech=[{"name":"MarshalJSON, NewFeature, AddFeature, SetBoundingBox","where":"geojson/feature.go"}], tech="eq",
  note="encoding/json is modelled by the members (after tags and omitempty) and their values it is handed."),
 dict(id="P13", title="Property accessors return the stored value or report its absence",
  statement="Setting a property stores exactly that value under that key, also on a feature without properties. A typed accessor returns the stored value if it has the type (a whole or floating number for integers) and an error otherwise, and a Must accessor returns the value, else the given default, else zero.",
  forall="all features, keys, values and defaults", why="Tests use one value per type.",
  files=["geojson/properties.go"], mech=[{"name":"SetProperty, Property*, PropertyMust*","where":"geojson/properties.go"}], tech="eq"),
 dict(id="P25", title="R-tree searches miss nothing and prune only what cannot qualify",
  statement="An intersection search returns every object whose bounding box intersects the query box (and satisfies the condition, if one is given), once each, descending into every intersecting branch. A search by identifier considers all objects and returns those whose ID is equal. A nearest-neighbour search visits every branch except those farther than the current k-th distance, keeps candidates in increasing order of box distance, at most k, and returns none for k <= 0.",
  forall="all trees, query boxes, points, k, conditions and identifiers", why="Tests search one small tree.", over=["inputs"],
  files=["rtree.go"], mech=[{"name":"searchIntersectWithCond, nearestNeighbors, insertNearest, sortPreallocEntries, minDist","where":"rtree.go:673-865"}], tech="eq",
  note="Recursive calls are replaced by what this property says of them (induction on the height); sort.Sort is trusted to sort by Less and Swap, which are checked."),
 dict(id="P26", title="R-tree insertion keeps boxes, parents and levels right",
  statement="The box of a node is the union of its entries' boxes. Inserting puts the entry into the chosen node at its level, descends by least enlargement (ties by smaller box), splits a node of more than MaxChildren entries, recomputes the boxes up to the root, adds the new half to the parent and grows a new root above a split one. Finding the leaf for a deletion looks into every subtree whose box contains the object's box until one holds a match.",
  forall="all trees and inserted entries", why="Structure is private; tests look at search results of a handful of objects.",
  files=["rtree.go","box.go"], mech=[{"name":"insert, chooseNode, adjustTree, computeBoundingBox, getEntry, findLeaf, getAllBoundingBoxes","where":"rtree.go:279-445, 613"}], tech="eq",
  note="Recursive calls are replaced by what this property says of them (induction on the height)."),
 dict(id="P27", title="R-tree size and height count insertions, deletions and upserts",
  statement="A new tree has the size of the objects given and its parameters follow from their number; inserting adds one, and a successful deletion takes exactly one matching object out of its leaf, while an unsuccessful one changes nothing and reports false. After a deletion single-child roots collapse and the height is the root's level, so the tree stays usable however many are deleted. Deleting by ID removes what a search for that ID finds, upserting deletes that ID before inserting, and trees that make up identifiers give their objects different ones.",
  forall="all trees, histories of insertions and deletions, identifiers and comparators", why="Tests delete one or two objects from one tree; emptying a deep tree, duplicates and failed deletions are not covered.", over=["inputs","histories"],
  files=["rtree.go"], mech=[{"name":"NewMinMaxTree, bulkLoad, Insert*, Delete*, UpsertBySpatialID, Size, Depth","where":"rtree.go:19-170, 265-277, 529-611, 866"}], tech="eq",
  note="Histories are covered by showing what each single operation does to an arbitrary tree."),
 dict(id="P28", title="R-tree splits, bulk loading and condensing lose no entry",
  statement="Splitting a node gives two nodes of its level and kind that share out all its entries, each at least the minimum while enough remain, with every child's parent set. Bulk loading partitions all objects into nodes that hold no more than their share and do not share storage, with parents, levels and boxes set; its height and shares follow the OMT formulas. Condensing drops exactly the nodes below the minimum and reinserts their non-empty remains at the same level.",
  forall="all nodes, object lists and tree parameters", why="Tests bulk load one list and never inspect or then extend the nodes.",
  files=["rtree.go"], mech=[{"name":"split, assignGroup, pickSeeds, pickNext, assign, omt, walkPartitions, condenseTree","where":"rtree.go:117-236, 385-527, 636-670"}], tech="eq",
  note="Splitting, condensing and nested bulk loading are also decided on instances: fixed node shapes with unknown contents."),
 dict(id="P38", title="The convex hull is the Graham scan over every given point",
  statement="The hull starts from the lowest point (the rightmost of several), takes the other points in the order of their angle around it (nearer ones first on a tie), drops the last kept point while it lies right of the way to the next one, and keeps every point not dropped, a repeated point once. It is nil exactly if fewer than three points are given or remain; the given points keep their order.",
  forall="all point sets, those with repeated and collinear points included", why="Tests use one small set without repetitions.",
  files=["convexhull.go"], mech=[{"name":"ConvexHull, FindLowestPoint, hullOrder.Less, isLeft","where":"convexhull.go"}], tech="eq",
  note="The selection of the lowest point and the order are decided for any number of points; the scan on instances: two, three and four points with unknown coordinates. sort.Sort is trusted to sort by Less."),
 dict(id="P29", title="Simplification keeps the ends and every vertex beyond the threshold",
  statement="For a threshold of zero or more, the simplified line keeps the first and last vertex in order. Between two kept vertices it keeps the vertex farthest from their segment (the first of several) if that is farther than the threshold, and then treats both halves the same way; otherwise it keeps none between them. Lines of two vertices or fewer come back as they are.",
  forall="all lines and thresholds of zero or more", why="Tests simplify one line with one threshold.",
  files=["simplify.go"], mech=[{"name":"DouglasPeuckerSimplify, dpWorker","where":"simplify.go"}], tech="eq",
  note="Decided on instances: lines of none to five vertices with unknown coordinates and unknown distances (PointToSegmentDistance, P16, is any function); sort.Sort is trusted to sort."),
 dict(id="P30", title="The minimum rectangle is the smallest box along an edge of the hull",
  statement="Mbr takes the convex hull of all exterior points of its argument, turns it about its centroid so that one edge is level, takes the bounding box, and turns the box of least area (the first of several) back by the same angle. Every edge of the hull is tried, the closing one included. It is nil without a hull or without a centroid, and empty for a point.",
  forall="all geometries of the XY kinds whose hull has a box of finite area", why="Tests use one point set.",
  files=["mbr.go"], mech=[{"name":"Mbr","where":"mbr.go"}], tech="eq",
  note="Decided on instances: hulls of three and four corners with unknown coordinates, the points given as multi-point, line, lines, polygon and polygons; hull (P38), rotation, box, centroid and area stand for any functions here."),
]
NA = [
 dict(id="P90", title="UTM and datum conversions invert each other within a stated accuracy",
  statement="Converting to UTM and back, or from WGS84 to GCJ-02 or BD-09 and back, returns the starting coordinates within a fixed small error.",
  forall="all coordinates in the valid ranges", why="Tests sample a few places.", files=["utm.go","lonlat.go"],
  mech=[{"name":"FromLatLon / ToLatLon, transform","where":"utm.go, lonlat.go"}],
  reason="The error of the truncated series and of the one-step inverse is a quantitative numeric bound over float64 trigonometry; no sound static argument in reach bounds it. P21 and P22 decide the formulas themselves."),
 dict(id="P91", title="The computed hull is convex in spite of rounding",
  statement="With points so close to a line that their cross products are rounding errors, the polygon ConvexHull returns still encloses every given point and has no reflex vertex.",
  forall="all point sets", why="Tests use one small set.", files=["convexhull.go"],
  mech=[{"name":"ConvexHull (Graham scan)","where":"convexhull.go"}],
  reason="The sign of a float64 cross product of nearly collinear points is a rounding error, so the order and the scan may contradict each other (they do: see DESIGN.md); bounding that error is a numeric argument, not a dataflow fact. P38 decides the scan itself."),
 dict(id="P92", title="The minimum bounding rectangle is minimal",
  statement="No rectangle of any orientation that encloses the points has a smaller area than the returned one.",
  forall="all point sets", why="Tests use one set.", files=["mbr.go"], mech=[{"name":"Mbr (rotating calipers)","where":"mbr.go"}],
  reason="Minimality over all orientations is a numeric optimisation statement about runtime coordinates."),
 dict(id="P93", title="Nearest-neighbour search returns the closest objects",
  statement="Nearest neighbour queries return exactly the k closest objects of the tree, nearest first.",
  forall="all trees and query points", why="Tests use one tree.", files=["rtree.go"], mech=[{"name":"NearestNeighbors, minDist, minMaxDist pruning","where":"rtree.go"}],
  reason="The min-max-dist pruning argument relates distances of runtime boxes and objects by geometric inequalities; static rules can only bound which nodes are visited."),
]
