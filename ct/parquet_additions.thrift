/* Definitions of the Parquet format specification that are newer than the IDL snapshot in the repository. */
struct BoundingBox { 1: required double xmin; 2: required double xmax; 3: required double ymin; 4: required double ymax; 5: optional double zmin; 6: optional double zmax; 7: optional double mmin; 8: optional double mmax; }
struct GeospatialStatistics { 1: optional BoundingBox bbox; 2: optional list<i32> geospatial_types; }
struct VariantType { 1: optional i8 specification_version }
enum EdgeInterpolationAlgorithm { SPHERICAL = 0; VINCENTY = 1; THOMAS = 2; ANDOYER = 3; KARNEY = 4; }
struct GeometryType { 1: optional string crs; }
struct GeographyType { 1: optional string crs; 2: optional EdgeInterpolationAlgorithm algorithm; }
union LogicalType { 16: VariantType VARIANT 17: GeometryType GEOMETRY 18: GeographyType GEOGRAPHY }
struct ColumnMetaData { 17: optional GeospatialStatistics geospatial_statistics; }
