#pragma once
#include <std_msgs/Header.h>
#include <cstdint>
namespace ndt_gslam
{
// fields as in /repo/ndt_gslam/msg
struct NDTCellMsg {
  double mean_x = 0, mean_y = 0, mean_z = 0;
  std::vector<double> cov_matrix;
  double occupancy = 0;
  std::int64_t N = 0;
};
struct NDTMapMsg {
  std_msgs::Header header;
  double x_size = 0, y_size = 0, z_size = 0, x_cen = 0, y_cen = 0, z_cen = 0;
  double x_cell_size = 0, y_cell_size = 0, z_cell_size = 0;
  std::vector<NDTCellMsg> cells;
};
}
