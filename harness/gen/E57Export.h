#pragma once
#define E57_DLL
#define E57FORMAT_NO_EXPORT
#define E57_DLL_DEPRECATED
