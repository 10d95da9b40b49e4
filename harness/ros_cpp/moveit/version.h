#pragma once
#define MOVEIT_VERSION_MAJOR 1
#define MOVEIT_VERSION_MINOR 0
#define MOVEIT_VERSION_PATCH 1
