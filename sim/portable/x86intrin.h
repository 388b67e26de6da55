/* empty on purpose: the "port" build variant has no vector intrinsics, so the portable code is compiled */
