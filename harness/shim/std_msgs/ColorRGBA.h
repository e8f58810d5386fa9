#ifndef SHIM_COLOR
#define SHIM_COLOR
namespace std_msgs
{
struct ColorRGBA {
  float r = 0, g = 0, b = 0, a = 0;
};
}
#endif
