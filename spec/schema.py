"""WebM / Matroska element schema (written from the published element tables, not from the sources).

One line per element: indentation = nesting, name, hex id, kind, cardinality (1 or *), [member of the
webm_parser structure], [default].  '-' in the member column: delivered through a callback, not a member.
"""

WEBM = '''
Ebml 1A45DFA3 master 1 -
  EbmlVersion 4286 uint 1 ebml_version 1
  EbmlReadVersion 42F7 uint 1 ebml_read_version 1
  EbmlMaxIdLength 42F2 uint 1 ebml_max_id_length 4
  EbmlMaxSizeLength 42F3 uint 1 ebml_max_size_length 8
  DocType 4282 string 1 doc_type "matroska"
  DocTypeVersion 4287 uint 1 doc_type_version 1
  DocTypeReadVersion 4285 uint 1 doc_type_read_version 1
Segment 18538067 master 1 -
  SeekHead 114D9B74 master * -
    Seek 4DBB master * -
      SeekId 53AB id 1 id
      SeekPosition 53AC uint 1 position 0
  Info 1549A966 master * -
    TimecodeScale 2AD7B1 uint 1 timecode_scale 1000000
    Duration 4489 float 1 duration 0
    DateUtc 4461 date 1 date_utc 0
    Title 7BA9 string 1 title
    MuxingApp 4D80 string 1 muxing_app
    WritingApp 5741 string 1 writing_app
  Cluster 1F43B675 master * -
    Timecode E7 uint 1 timecode 0
    PrevSize AB uint 1 previous_size 0
    SimpleBlock A3 simpleblock * simple_blocks
    BlockGroup A0 master * block_groups
      Block A1 block 1 block
      BlockVirtual A2 virtualblock 1 virtual_block
      BlockAdditions 75A1 master 1 additions
        BlockMore A6 master * block_mores
          BlockAddId EE uint 1 id 1
          BlockAdditional A5 binary 1 data
      BlockDuration 9B uint 1 duration 0
      ReferenceBlock FB int * references
      DiscardPadding 75A2 int 1 discard_padding 0
      Slices 8E master 1 slices
        TimeSlice E8 master * slices
          LaceNumber CC uint 1 lace_number 0
  Tracks 1654AE6B master * -
    TrackEntry AE master * -
      TrackNumber D7 uint 1 track_number 0
      TrackUid 73C5 uint 1 track_uid 0
      TrackType 83 uint 1 track_type 0
      FlagEnabled B9 bool 1 is_enabled 1
      FlagDefault 88 bool 1 is_default 1
      FlagForced 55AA bool 1 is_forced 0
      FlagLacing 9C bool 1 uses_lacing 1
      DefaultDuration 23E383 uint 1 default_duration 0
      Name 536E string 1 name
      Language 22B59C string 1 language "eng"
      CodecId 86 string 1 codec_id
      CodecPrivate 63A2 binary 1 codec_private
      CodecName 258688 string 1 codec_name
      CodecDelay 56AA uint 1 codec_delay 0
      SeekPreRoll 56BB uint 1 seek_pre_roll 0
      Video E0 master 1 video
        FlagInterlaced 9A uint 1 interlaced 0
        StereoMode 53B8 uint 1 stereo_mode 0
        AlphaMode 53C0 uint 1 alpha_mode 0
        PixelWidth B0 uint 1 pixel_width 0
        PixelHeight BA uint 1 pixel_height 0
        PixelCropBottom 54AA uint 1 pixel_crop_bottom 0
        PixelCropTop 54BB uint 1 pixel_crop_top 0
        PixelCropLeft 54CC uint 1 pixel_crop_left 0
        PixelCropRight 54DD uint 1 pixel_crop_right 0
        DisplayWidth 54B0 uint 1 display_width 0
        DisplayHeight 54BA uint 1 display_height 0
        DisplayUnit 54B2 uint 1 display_unit 0
        AspectRatioType 54B3 uint 1 aspect_ratio_type 0
        FrameRate 2383E3 float 1 frame_rate 0
        Colour 55B0 master 1 colour
          MatrixCoefficients 55B1 uint 1 matrix_coefficients 2
          BitsPerChannel 55B2 uint 1 bits_per_channel 0
          ChromaSubsamplingHorz 55B3 uint 1 chroma_subsampling_x 0
          ChromaSubsamplingVert 55B4 uint 1 chroma_subsampling_y 0
          CbSubsamplingHorz 55B5 uint 1 cb_subsampling_x 0
          CbSubsamplingVert 55B6 uint 1 cb_subsampling_y 0
          ChromaSitingHorz 55B7 uint 1 chroma_siting_x 0
          ChromaSitingVert 55B8 uint 1 chroma_siting_y 0
          Range 55B9 uint 1 range 0
          TransferCharacteristics 55BA uint 1 transfer_characteristics 2
          Primaries 55BB uint 1 primaries 2
          MaxCll 55BC uint 1 max_cll 0
          MaxFall 55BD uint 1 max_fall 0
          MasteringMetadata 55D0 master 1 mastering_metadata
            PrimaryRChromaticityX 55D1 float 1 primary_r_chromaticity_x 0
            PrimaryRChromaticityY 55D2 float 1 primary_r_chromaticity_y 0
            PrimaryGChromaticityX 55D3 float 1 primary_g_chromaticity_x 0
            PrimaryGChromaticityY 55D4 float 1 primary_g_chromaticity_y 0
            PrimaryBChromaticityX 55D5 float 1 primary_b_chromaticity_x 0
            PrimaryBChromaticityY 55D6 float 1 primary_b_chromaticity_y 0
            WhitePointChromaticityX 55D7 float 1 white_point_chromaticity_x 0
            WhitePointChromaticityY 55D8 float 1 white_point_chromaticity_y 0
            LuminanceMax 55D9 float 1 luminance_max 0
            LuminanceMin 55DA float 1 luminance_min 0
        Projection 7670 master 1 projection
          ProjectionType 7671 uint 1 type 0
          ProjectionPrivate 7672 binary 1 projection_private
          ProjectionPoseYaw 7673 float 1 pose_yaw 0
          ProjectionPosePitch 7674 float 1 pose_pitch 0
          ProjectionPoseRoll 7675 float 1 pose_roll 0
      Audio E1 master 1 audio
        SamplingFrequency B5 float 1 sampling_frequency 8000
        OutputSamplingFrequency 78B5 float 1 output_frequency 8000
        Channels 9F uint 1 channels 1
        BitDepth 6264 uint 1 bit_depth 0
      ContentEncodings 6D80 master 1 content_encodings
        ContentEncoding 6240 master * encodings
          ContentEncodingOrder 5031 uint 1 order 0
          ContentEncodingScope 5032 uint 1 scope 1
          ContentEncodingType 5033 uint 1 type 0
          ContentEncryption 5035 master 1 encryption
            ContentEncAlgo 47E1 uint 1 algorithm 0
            ContentEncKeyId 47E2 binary 1 key_id
            ContentEncAesSettings 47E7 master 1 aes_settings
              AesSettingsCipherMode 47E8 uint 1 aes_settings_cipher_mode 1
  Cues 1C53BB6B master * -
    CuePoint BB master * -
      CueTime B3 uint 1 time 0
      CueTrackPositions B7 master * cue_track_positions
        CueTrack F7 uint 1 track 0
        CueClusterPosition F1 uint 1 cluster_position 0
        CueRelativePosition F0 uint 1 relative_position 0
        CueDuration B2 uint 1 duration 0
        CueBlockNumber 5378 uint 1 block_number 1
  Chapters 1043A770 master * -
    EditionEntry 45B9 master * -
      ChapterAtom B6 master * atoms
        ChapterUid 73C4 uint 1 uid 0
        ChapterStringUid 5654 string 1 string_uid
        ChapterTimeStart 91 uint 1 time_start 0
        ChapterTimeEnd 92 uint 1 time_end 0
        ChapterDisplay 80 master * displays
          ChapString 85 string 1 string
          ChapLanguage 437C string * languages "eng"
          ChapCountry 437E string * countries
        ChapterAtom B6 recurse * atoms
  Tags 1254C367 master * -
    Tag 7373 master * -
      Targets 63C0 master 1 targets
        TargetTypeValue 68CA uint 1 type_value 50
        TargetType 63CA string 1 type
        TagTrackUid 63C5 uint * track_uids
      SimpleTag 67C8 master * tags
        TagName 45A3 string 1 name
        TagLanguage 447A string 1 language "und"
        TagDefault 4484 bool 1 is_default 1
        TagString 4487 string 1 string
        TagBinary 4485 binary 1 binary
        SimpleTag 67C8 recurse * tags
'''

# elements known to the C++ muxer/parser only
EXTRA = '''
Void EC
SignatureSlot 1B538667
SignatureAlgo 7E8A
SignatureHash 7E9A
SignaturePublicKey 7EA5
Signature 7EB5
SignatureElements 7E5B
SignatureElementList 7E7B
SignedElement 6532
MaxBlockAdditionId 55EE
ColourSpace 2EB524
ContentCompression 5034
ContentCompAlgo 4254
ContentCompSettings 4255
ContentSignature 47E3
ContentSigKeyId 47E4
ContentSigAlgo 47E5
ContentSigHashAlgo 47E6
AesSettingsCipherInitData 47E9
'''


class El:
    def __init__(self, name, id, kind, card, member, default, parent):
        self.name, self.id, self.kind, self.card, self.member = name, id, kind, card, member
        self.default, self.parent, self.children = default, parent, []

    @property
    def path(self):
        return (self.parent.path if self.parent else ()) + (self.id,)


def load():
    roots, stack, all_ = [], [], []
    for l in WEBM.splitlines():
        if not l.strip():
            continue
        ind = (len(l) - len(l.lstrip())) // 2
        t = l.split()
        while len(stack) > ind:
            stack.pop()
        par = stack[-1] if stack else None
        m = t[4] if t[4] != '-' else None
        e = El(t[0], int(t[1], 16), t[2], t[3], m, t[5] if len(t) > 5 else None, par)
        (par.children if par else roots).append(e)
        stack.append(e)
        all_.append(e)
    return roots, all_


def norm(name):
    return name.lower()


def ids():
    """{normalised name: id}"""
    out = {norm(e.name): e.id for e in load()[1]}
    for l in EXTRA.split('\n'):
        if l.strip():
            n, v = l.split()
            out[norm(n)] = int(v, 16)
    return out


def kinds():
    """{normalised name: kind}, for elements with one"""
    return {norm(e.name): e.kind for e in load()[1] if e.kind != 'recurse'}


def parents():
    """[(normalised name, normalised parent name)]"""
    return [(norm(e.name), norm(e.parent.name)) for e in load()[1] if e.parent]
