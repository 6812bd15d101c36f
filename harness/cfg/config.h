#ifndef CONFIG_H_
#define CONFIG_H_
#endif
