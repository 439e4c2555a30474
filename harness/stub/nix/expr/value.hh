// Stand-in for the Nix C++ header (absent from this sandbox). nixd's own
// sources only include it; the parts compiled here name nothing from it.
#pragma once
