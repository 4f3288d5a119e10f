#ifndef VERIF_AR_FRAME_H_
#define VERIF_AR_FRAME_H_
namespace arolla { class FramePtr { public: FramePtr() = default; }; class ConstFramePtr {}; }
#endif
