// Stand-in for OpenCV-contrib's xfeatures2d (absent offline): a BRIEF-32 descriptor with the same interface and the
// same observable conventions (drops key points closer than 28 px to the border, 32 byte binary rows).
#pragma once
#include <opencv2/features2d.hpp>
#include <opencv2/imgproc.hpp>
#include <random>
#include <vector>
namespace cv::xfeatures2d {
class BriefDescriptorExtractor : public cv::Feature2D
{
  public:
    static cv::Ptr<BriefDescriptorExtractor> create(int bytes = 32, bool = false)
    {
        return cv::makePtr<BriefDescriptorExtractor>(bytes);
    }
    explicit BriefDescriptorExtractor(int bytes) : _bytes(bytes)
    {
        std::mt19937 rng(0xB51EFu);
        for (int i = 0; i < bytes * 8; ++i)
        {
            std::array<int, 4> p;
            for (int& v: p)
            {
                // sum of uniforms: bell shaped in [-20, 20]
                int s = 0;
                for (int k = 0; k < 4; ++k) s += static_cast<int>(rng() % 21u);
                v = (s - 40) / 2;
            }
            _pattern.push_back(p);
        }
    }
    int descriptorSize() const override { return _bytes; }
    int descriptorType() const override { return CV_8U; }
    int defaultNorm() const override { return cv::NORM_HAMMING; }
    using cv::Feature2D::compute;
    void compute(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::OutputArray descriptors) override
    {
        cv::Mat im = image.getMat();
        cv::Mat gray;
        if (im.channels() > 1) cv::cvtColor(im, gray, cv::COLOR_BGR2GRAY);
        else gray = im;
        cv::KeyPointsFilter::runByImageBorder(keypoints, gray.size(), 28);
        descriptors.create(static_cast<int>(keypoints.size()), _bytes, CV_8U);
        if (keypoints.empty()) return;
        cv::Mat smooth;
        cv::blur(gray, smooth, cv::Size(9, 9));
        cv::Mat out = descriptors.getMat();
        for (int k = 0; k < out.rows; ++k)
        {
            const int x = static_cast<int>(keypoints[k].pt.x + 0.5f), y = static_cast<int>(keypoints[k].pt.y + 0.5f);
            for (int b = 0; b < _bytes; ++b)
            {
                unsigned v = 0;
                for (int i = 0; i < 8; ++i)
                {
                    const auto& p = _pattern[static_cast<size_t>(b * 8 + i)];
                    v = v * 2 + (smooth.at<uchar>(y + p[1], x + p[0]) < smooth.at<uchar>(y + p[3], x + p[2]) ? 1u : 0u);
                }
                out.at<uchar>(k, b) = static_cast<uchar>(v);
            }
        }
    }

  private:
    int _bytes;
    std::vector<std::array<int, 4>> _pattern;
};
} // namespace cv::xfeatures2d
