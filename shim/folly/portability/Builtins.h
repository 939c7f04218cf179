#pragma once
// Stand-in: on Linux folly's portability header adds nothing the code under test needs.
