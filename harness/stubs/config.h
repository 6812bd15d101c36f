#ifndef CONFIG_H_
#define CONFIG_H_
#define ENABLE_HDF5
#endif
