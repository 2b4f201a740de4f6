// Plain GeoTIFFs, written and read with GDAL's C interface and not through the library.
#pragma once
#include "common.hpp"
#include <gdal.h>
namespace hz {
inline bool put_tif(const std::string &path, int w, int h, GDALDataType t, double nodata, const double *gt, const std::string &proj, const std::vector<double> &d) {
  GDALDatasetH ds = GDALCreate(GDALGetDriverByName("GTiff"), path.c_str(), w, h, 1, t, nullptr);
  if (!ds) return false;
  GDALRasterBandH b = GDALGetRasterBand(ds, 1);
  GDALSetRasterNoDataValue(b, nodata);
  if (gt) GDALSetGeoTransform(ds, const_cast<double *>(gt));
  if (!proj.empty()) GDALSetProjection(ds, proj.c_str());
  bool ok = GDALRasterIO(b, GF_Write, 0, 0, w, h, const_cast<double *>(d.data()), w, h, GDT_Float64, 0, 0) == CE_None;
  GDALClose(ds);
  return ok;
}
struct Tif { bool ok = false; int w = 0, h = 0; GDALDataType t = GDT_Unknown; double nodata = 0; int has_nodata = 0; double gt[6]; bool has_gt = false; std::string proj, history; std::vector<double> d; };
inline Tif get_tif(const std::string &path) {
  Tif f;
  GDALDatasetH ds = GDALOpen(path.c_str(), GA_ReadOnly);
  if (!ds) return f;
  f.w = GDALGetRasterXSize(ds); f.h = GDALGetRasterYSize(ds);
  GDALRasterBandH b = GDALGetRasterBand(ds, 1);
  f.t = GDALGetRasterDataType(b);
  f.nodata = GDALGetRasterNoDataValue(b, &f.has_nodata);
  f.has_gt = GDALGetGeoTransform(ds, f.gt) == CE_None;
  f.proj = GDALGetProjectionRef(ds);
  const char *m = GDALGetMetadataItem(ds, "PROCESSING_HISTORY", nullptr); f.history = m ? m : "";
  f.d.resize((size_t)f.w * f.h);
  f.ok = GDALRasterIO(b, GF_Read, 0, 0, f.w, f.h, f.d.data(), f.w, f.h, GDT_Float64, 0, 0) == CE_None;
  GDALClose(ds);
  return f;
}
}
