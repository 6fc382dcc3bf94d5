#include "common.hpp"
int main(int argc,char**argv){
  google::InitGoogleLogging(argv[0]); FLAGS_minloglevel=3;
  using namespace soil_simulator;
  for (float cz : {0.1f, 2.0f}) {
  Grid grid(10*cz,10*cz,2*cz,cz,cz);
  SimOut so(grid);
  Bucket b({0,0,0},{0,0,0},{0.7,0,-0.5},{0.7,0,0.5},0.5);
  b.pos_={0,0,0}; b.ori_={1,0,0,0};
  // one wall, 2.5 cells below the transported height
  so.body_[0][10][10]=-4*cz; so.body_[1][10][10]=-2*cz-cz/2*0;
  so.body_soil_[0][10][10]=-2*cz; so.body_soil_[1][10][10]=-cz;
  so.body_soil_pos_.push_back(body_soil{0,10,10,0,0,2.5f*cz,cz});
  so.body_soil_[0][10][10]=0;so.body_soil_[1][10][10]=0;
  UpdateBodySoil(&so,{0,0,0},{1,0,0,0},grid,&b,1e-5);
  printf("cz %g ground %g soil %g %g parcels %zu\n",cz,so.terrain_[10][10],so.body_soil_[0][10][10],so.body_soil_[1][10][10],so.body_soil_pos_.size());
  }
}
