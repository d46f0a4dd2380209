#pragma once // stand-in: see platform.hpp
